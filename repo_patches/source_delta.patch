From 0156919485f6ada3b167a8c225b72b2598a5974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 01/18] fix: write strings byte for byte instead of encoding
 them as UTF-8

---
 src/serialization/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dcd63cd..51426e7 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -40,9 +40,11 @@ impl<'a> ByteWriter<'a> {
         Ok(())
     }
 
+    /// Every character of the string represents a single byte, see
+    /// [`ByteStream::string`](super::ByteStream::string).
     pub fn string(&mut self, value: &str) {
-        self.size_t(value.len() as i64);
-        self.slice(value.as_bytes());
+        self.size_t(value.chars().count() as i64);
+        self.data.extend(value.chars().map(|character| character as u8));
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From 4e6dd09785f52efcbc921ca07b3b036b26c17deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 02/18] fix: only return the input as is if there is nothing to
 convert

---
 src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0b70b2..b922df5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,7 +26,7 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
         return Err(LunifyError::IncorrectSignature);
     }
 
-    let version = byte_stream.byte()?.try_into()?;
+    let version: LuaVersion = byte_stream.byte()?.try_into()?;
 
     #[cfg(feature = "debug")]
     {
@@ -36,8 +36,14 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
 
     let input_format = Format::from_byte_stream(&mut byte_stream, version, settings)?;
 
-    // If the input is already in the correct format, return it as is.
-    if input_format == *output_format && !cfg!(test) {
+    // If the input is already Lua 5.1 byte code in the correct format and there
+    // are no compile constants to convert, return it as is.
+    let is_already_unified = version == LuaVersion::Lua51
+        && input_format == *output_format
+        && settings.lua51 == settings.output
+        && input_bytes.starts_with(settings.output.binary_signature.as_bytes());
+
+    if is_already_unified && !cfg!(test) {
         #[cfg(feature = "debug")]
         println!("\n======== Done ========\n");
 
-- 
2.43.0


From 9cd9fd91315f292b95bc9a1405392203c7ccf0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 03/18] fix: report input that ends after the signature as too
 short

---
 src/serialization/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 123f414..8796906 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -23,7 +23,7 @@ impl<'a> ByteStream<'a> {
             "remove_signature can only be called at the beginning of the byte stream"
         );
 
-        if self.data.len() <= signature.len() {
+        if self.data.len() < signature.len() {
             return false;
         }
 
-- 
2.43.0


From f31316b5998161937e7ed55e1a178abb6769f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 04/18] fix: treat impossible lengths as truncated input on
 every host

---
 src/function/mod.rs         | 12 ++++++------
 src/serialization/stream.rs | 20 +++++---------------
 2 files changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0744c90..f7178b4 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -46,7 +46,7 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("\n======== Instructions ========");
 
-        for _program_counter in 0..instruction_count as usize {
+        for _program_counter in 0..instruction_count as u64 {
             let instruction = T::from_byte_stream(byte_stream, settings, layout)?;
 
             #[cfg(feature = "debug")]
@@ -68,7 +68,7 @@ impl Function {
             println!("\n======== Constants ========");
         }
 
-        for _index in 0..constant_count as usize {
+        for _index in 0..constant_count as u64 {
             let constant_type = byte_stream.byte()?;
 
             match constant_type {
@@ -120,7 +120,7 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("\nfunction_count: {function_count}");
 
-        for _index in 0..function_count as usize {
+        for _index in 0..function_count as u64 {
             let function = Function::from_byte_stream(byte_stream, version, settings)?;
             functions.push(function);
         }
@@ -138,7 +138,7 @@ impl Function {
             println!("\n======== Local variables ========");
         }
 
-        for _index in 0..local_variable_count as usize {
+        for _index in 0..local_variable_count as u64 {
             let name = byte_stream.string()?;
             let start_program_counter = byte_stream.integer()?;
             let end_program_counter = byte_stream.integer()?;
@@ -165,7 +165,7 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("line_info_count: {line_info_count}");
 
-        for _index in 0..line_info_count as usize {
+        for _index in 0..line_info_count as u64 {
             let line = byte_stream.integer()?;
             line_info.push(line);
         }
@@ -180,7 +180,7 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("\nupvalue_count: {upvalue_count}");
 
-        for _index in 0..upvalue_count as usize {
+        for _index in 0..upvalue_count as u64 {
             let upvalue = byte_stream.string()?;
 
             #[cfg(feature = "debug")]
diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 8796906..86fc1fe 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -85,26 +85,16 @@ impl<'a> ByteStream<'a> {
 
     pub fn slice(&mut self, length: usize) -> Result<&[u8], LunifyError> {
         let start = self.offset;
-        self.offset += length;
+        self.offset = start.saturating_add(length);
 
-        if self.offset > self.data.len() {
-            return Err(LunifyError::InputTooShort);
-        }
-
-        Ok(&self.data[start..self.offset])
+        self.data.get(start..self.offset).ok_or(LunifyError::InputTooShort)
     }
 
     pub fn string(&mut self) -> Result<String, LunifyError> {
-        let length = self.size_t()? as usize;
-        let start = self.offset;
-
-        self.offset += length;
-
-        if self.offset > self.data.len() {
-            return Err(LunifyError::InputTooShort);
-        }
+        let length = self.size_t()?;
+        let length = length.try_into().map_err(|_| LunifyError::InputTooShort)?;
 
-        Ok(self.data[start..self.offset].iter().map(|&byte| byte as char).collect())
+        Ok(self.slice(length)?.iter().map(|&byte| byte as char).collect())
     }
 
     pub fn is_empty(&self) -> bool {
-- 
2.43.0


From a1e8fd7355a986053c98a33514ed714f4bfccced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 05/18] fix: detect single precision floats in Lua 5.0 headers

---
 src/format/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 0884749..ebf1bb1 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -94,7 +94,9 @@ impl Format {
             LuaVersion::Lua50 => {
                 // Is there even a way to get this information from Lua 5.0?
                 let value = from_slice!(byte_stream, number_width, endianness, f32, f64);
-                value != 31415926.535897933
+                // Like Lua 5.0 we only compare the integral part, because the fraction depends
+                // on the precision of the number type.
+                value as i64 != 31415926
             }
         };
 
-- 
2.43.0


From 217ead064ec3e0d5297ff277da194cb11b4b73b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 06/18] fix: keep the number of upvalues if their names are
 stripped

---
 src/function/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index f7178b4..7a72d44 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -21,6 +21,7 @@ pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
     last_line_defined: i64,
+    upvalue_count: u8,
     parameter_count: u8,
     is_variadic: u8,
     maximum_stack_size: u8,
@@ -205,7 +206,7 @@ impl Function {
             LuaVersion::Lua50 => line_defined,
         };
 
-        let _upvalue_count = byte_stream.byte()?;
+        let upvalue_count = byte_stream.byte()?;
         let parameter_count = byte_stream.byte()?;
         let mut is_variadic = byte_stream.byte()?;
         let mut maximum_stack_size = byte_stream.byte()?;
@@ -216,7 +217,7 @@ impl Function {
             println!("source_file: {source_file}");
             println!("line_defined: {line_defined}");
             println!("last_line_defined: {last_line_defined}");
-            println!("upvalue_count: {_upvalue_count}");
+            println!("upvalue_count: {upvalue_count}");
             println!("parameter_count: {parameter_count}");
             println!("is_variadic: {is_variadic}");
             println!("maximum_stack_size: {maximum_stack_size}");
@@ -270,6 +271,7 @@ impl Function {
             source_file,
             line_defined,
             last_line_defined,
+            upvalue_count,
             parameter_count,
             is_variadic,
             maximum_stack_size,
@@ -287,7 +289,7 @@ impl Function {
         byte_writer.string(&self.source_file);
         byte_writer.integer(self.line_defined);
         byte_writer.integer(self.last_line_defined);
-        byte_writer.byte(self.upvalues.len() as u8);
+        byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
-- 
2.43.0


From d0c593d95df146e64efc2a8600af605abcee3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 07/18] fix: reject instruction layouts that are wider than 64
 bits

---
 src/function/instruction/operand/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 0feefa5..8e55367 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -125,6 +125,11 @@ impl InstructionLayout {
             }
         }
 
+        // Make sure that an instruction fits into the biggest supported width.
+        if offset > 64 {
+            return Err(LunifyError::InvalidInstructionLayout);
+        }
+
         let opcode = opcode.unwrap();
         let a = a.unwrap();
         let b = b.unwrap();
-- 
2.43.0


From a44ad3efc8b1ad7c0841d82aef882f1994e0f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 08/18] fix: report numbers that don't fit the output format
 instead of changing their value

---
 src/error.rs                |  4 ++--
 src/number.rs               | 10 +++++++---
 src/serialization/writer.rs | 24 ++++++++++++++++++++++--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d31fbf4..6a59588 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -39,8 +39,8 @@ pub enum LunifyError {
     /// The byte code contains a number with a non-integral value that can't be
     /// represented when `is_number_integral` is set to true.
     FloatPrecisionLoss,
-    /// The byte code contains an integral value that is too big to be
-    /// represented when `is_number_integral` is set to false.
+    /// The byte code contains an integral value that can't be represented by
+    /// the output format.
     IntegerOverflow,
     /// The byte code is truncated.
     InputTooShort,
diff --git a/src/number.rs b/src/number.rs
index 2deb1b7..0bf2c7b 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -12,9 +12,12 @@ impl Number {
     pub(crate) fn as_integer(self) -> Result<i64, LunifyError> {
         match self {
             Number::Integer(value) => Ok(value),
-            Number::Float(value) => match value == value.round() {
+            Number::Float(value) if value != value.round() => Err(LunifyError::FloatPrecisionLoss),
+            // `i64::MAX` can't be represented as a float, so we compare against the next bigger
+            // value.
+            Number::Float(value) => match value >= i64::MIN as f64 && value < i64::MAX as f64 {
                 true => Ok(value as i64),
-                false => Err(LunifyError::FloatPrecisionLoss),
+                false => Err(LunifyError::IntegerOverflow),
             },
         }
     }
@@ -22,7 +25,8 @@ impl Number {
     pub(crate) fn as_float(self) -> Result<f64, LunifyError> {
         match self {
             Number::Float(value) => Ok(value),
-            Number::Integer(value) => match value < f64::MAX as i64 {
+            // Bigger integers might be rounded, so make sure that we can get the same value back.
+            Number::Integer(value) => match value as f64 as i128 == value as i128 {
                 true => Ok(value as f64),
                 false => Err(LunifyError::IntegerOverflow),
             },
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 51426e7..4151e89 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -33,9 +33,29 @@ impl<'a> ByteWriter<'a> {
     }
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
+        let is_32bit = self.format.number_width == BitWidth::Bit32;
+
         match self.format.is_number_integral {
-            true => to_slice!(self, value.as_integer()?, number_width, i32),
-            false => to_slice!(self, value.as_float()?, number_width, f32),
+            true => {
+                let integer = value.as_integer()?;
+
+                if is_32bit && i32::try_from(integer).is_err() {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
+                to_slice!(self, integer, number_width, i32)
+            }
+            false => {
+                let float = value.as_float()?;
+
+                // Floats are rounded to the precision of the output format, but integers are
+                // always exact.
+                if is_32bit && matches!(value, Number::Integer(_)) && float as f32 as f64 != float {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
+                to_slice!(self, float, number_width, f32)
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 38d0a47f6aff5989f14fb5b491c3b197dd48e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 09/18] fix: report values that exceed the integer or
 instruction width instead of truncating them

---
 src/function/mod.rs         | 24 ++++++++++++------------
 src/serialization/writer.rs | 20 ++++++++++++++++++++
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 7a72d44..dd386de 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -287,21 +287,21 @@ impl Function {
     pub(crate) fn write(self, byte_writer: &mut ByteWriter) -> Result<(), LunifyError> {
         // function
         byte_writer.string(&self.source_file);
-        byte_writer.integer(self.line_defined);
-        byte_writer.integer(self.last_line_defined);
+        byte_writer.checked_integer(self.line_defined)?;
+        byte_writer.checked_integer(self.last_line_defined)?;
         byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
 
         // instructions
-        byte_writer.integer(self.instructions.len() as i64);
+        byte_writer.checked_integer(self.instructions.len() as i64)?;
         for instruction in self.instructions {
-            byte_writer.instruction(instruction);
+            byte_writer.checked_instruction(instruction)?;
         }
 
         // constants
-        byte_writer.integer(self.constants.len() as i64);
+        byte_writer.checked_integer(self.constants.len() as i64)?;
         for constant in self.constants {
             match constant {
                 Constant::Nil => {
@@ -326,27 +326,27 @@ impl Function {
         }
 
         // functions
-        byte_writer.integer(self.functions.len() as i64);
+        byte_writer.checked_integer(self.functions.len() as i64)?;
         for function in self.functions {
             function.write(byte_writer)?;
         }
 
         // line info
-        byte_writer.integer(self.line_info.len() as i64);
+        byte_writer.checked_integer(self.line_info.len() as i64)?;
         for line_info in self.line_info {
-            byte_writer.integer(line_info);
+            byte_writer.checked_integer(line_info)?;
         }
 
         // local variables
-        byte_writer.integer(self.local_variables.len() as i64);
+        byte_writer.checked_integer(self.local_variables.len() as i64)?;
         for local_variable in self.local_variables {
             byte_writer.string(&local_variable.name);
-            byte_writer.integer(local_variable.start_program_counter);
-            byte_writer.integer(local_variable.end_program_counter);
+            byte_writer.checked_integer(local_variable.start_program_counter)?;
+            byte_writer.checked_integer(local_variable.end_program_counter)?;
         }
 
         // upvalues
-        byte_writer.integer(self.upvalues.len() as i64);
+        byte_writer.checked_integer(self.upvalues.len() as i64)?;
         for upvalue in self.upvalues {
             byte_writer.string(&upvalue);
         }
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 4151e89..c0d30b5 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -32,6 +32,26 @@ impl<'a> ByteWriter<'a> {
         to_slice!(self, instruction, instruction_width, u32)
     }
 
+    /// Same as [`ByteWriter::integer`] but doesn't truncate the value.
+    pub fn checked_integer(&mut self, value: i64) -> Result<(), LunifyError> {
+        if self.format.integer_width == BitWidth::Bit32 && i32::try_from(value).is_err() {
+            return Err(LunifyError::IntegerOverflow);
+        }
+
+        self.integer(value);
+        Ok(())
+    }
+
+    /// Same as [`ByteWriter::instruction`] but doesn't truncate the value.
+    pub fn checked_instruction(&mut self, instruction: u64) -> Result<(), LunifyError> {
+        if self.format.instruction_width == BitWidth::Bit32 && u32::try_from(instruction).is_err() {
+            return Err(LunifyError::ValueTooBigForOperand);
+        }
+
+        self.instruction(instruction);
+        Ok(())
+    }
+
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         let is_32bit = self.format.number_width == BitWidth::Bit32;
 
-- 
2.43.0


From 09898f1298f360c9078c314bce7849e7d9f4f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 10/18] fix: limit the nesting of functions so that malicious
 input can't overflow the stack

---
 src/error.rs        |  3 +++
 src/function/mod.rs | 31 +++++++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6a59588..fdb5fc3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -42,6 +42,9 @@ pub enum LunifyError {
     /// The byte code contains an integral value that can't be represented by
     /// the output format.
     IntegerOverflow,
+    /// The byte code contains more functions inside of each other than Lua is
+    /// able to load.
+    FunctionNestingTooDeep,
     /// The byte code is truncated.
     InputTooShort,
     /// The byte code has access padding.
diff --git a/src/function/mod.rs b/src/function/mod.rs
index dd386de..0b5bd27 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -17,6 +17,11 @@ use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
 
+/// Maximum number of functions inside of each other. Lua 5.0
+/// (`LUA_MAXPARSERLEVEL`) and Lua 5.1 (`LUAI_MAXCCALLS`) are not able to
+/// compile or load anything beyond that either.
+const MAXIMUM_NESTING: usize = 200;
+
 pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
@@ -114,7 +119,12 @@ impl Function {
         Ok(constants)
     }
 
-    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Vec<Function>, LunifyError> {
+    fn get_functions(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        nesting: usize,
+    ) -> Result<Vec<Function>, LunifyError> {
         let function_count = byte_stream.integer()?;
         let mut functions = Vec::new();
 
@@ -122,7 +132,7 @@ impl Function {
         println!("\nfunction_count: {function_count}");
 
         for _index in 0..function_count as u64 {
-            let function = Function::from_byte_stream(byte_stream, version, settings)?;
+            let function = Function::nested_from_byte_stream(byte_stream, version, settings, nesting + 1)?;
             functions.push(function);
         }
 
@@ -198,6 +208,19 @@ impl Function {
     }
 
     pub(crate) fn from_byte_stream(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Self, LunifyError> {
+        Self::nested_from_byte_stream(byte_stream, version, settings, 0)
+    }
+
+    fn nested_from_byte_stream(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        nesting: usize,
+    ) -> Result<Self, LunifyError> {
+        if nesting >= MAXIMUM_NESTING {
+            return Err(LunifyError::FunctionNestingTooDeep);
+        }
+
         let source_file = byte_stream.string()?;
         let line_defined = byte_stream.integer()?;
 
@@ -226,7 +249,7 @@ impl Function {
         let (instructions, constants, functions, line_info, local_variables, upvalues) = if version == LuaVersion::Lua51 {
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?;
             let constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
             let line_info = Self::get_line_info(byte_stream)?;
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
@@ -242,7 +265,7 @@ impl Function {
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua50.layout)?;
 
             if is_variadic != 0 {
-- 
2.43.0


From eb5cc53fd3bf5bf114a1136955ef95c96ece36f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 11/18] fix: compute the exact stack size of CALL and VARARG
 and never truncate it

---
 src/function/builder.rs           | 3 ++-
 src/function/instruction/lua51.rs | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 870b490..0ad5274 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -130,7 +130,8 @@ impl FunctionBuilder {
             // stack, the stack will never overflow.
             if let Some(destination) = self.contexts[context_index].instruction.stack_destination() {
                 let new_stack_size = destination.end + 1;
-                match new_stack_size <= settings.output.stack_limit {
+                // Independent of the settings, Lua stores the stack size as a single byte.
+                match new_stack_size <= settings.output.stack_limit.min(u8::MAX as u64) {
                     true => *maximum_stack_size = (*maximum_stack_size).max(new_stack_size as u8),
                     false => return Err(LunifyError::StackTooLarge(new_stack_size)),
                 }
diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 80693b7..15672b4 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -97,7 +97,8 @@ lua_instructions! {
 }
 
 impl Instruction {
-    /// Get the stack index that a given instruction will move data into.
+    /// Get the stack indices that a given instruction will move data into, both
+    /// ends of the range are inclusive.
     /// `SetTable` and `SetList` are technically not moving any data, but rather
     /// modifying it, but we need this behavior for detecting the correct
     /// `SetList` instruction inside the `upcast` function.
@@ -131,7 +132,7 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0 - 1),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..a.max((a + c.0).saturating_sub(2))),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
             Instruction::ForLoop { a, .. } => Some(a..a + 3),
@@ -140,7 +141,7 @@ impl Instruction {
             Instruction::SetList { a, .. } => Some(a..a),
             Instruction::Close { .. } => None,
             Instruction::Closure { a, .. } => Some(a..a),
-            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(1))),
+            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(2))),
         }
     }
 }
-- 
2.43.0


From 0ca458ca789aa41958cef717c7fe24e1a70464b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 12/18] fix: adjust jumps that land on a removed instruction,
 directly behind themselves, or outside of the function

---
 src/function/builder.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 0ad5274..959e9f6 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -53,7 +53,8 @@ impl FunctionBuilder {
     }
 
     pub(super) fn insert_extra_instruction(&mut self, index: usize, instruction: Instruction) {
-        let line_number = self.line_info[index];
+        // If there is no instruction at the index yet, we continue with the current line.
+        let line_number = self.line_info.get(index).copied().unwrap_or(self.line_number);
         self.contexts.insert(index, InstructionContext::new_extra(instruction));
         self.line_info.insert(index, line_number);
     }
@@ -80,25 +81,37 @@ impl FunctionBuilder {
         self.contexts.len()
     }
 
-    fn jump_destination(&self, context_index: usize, mut destination: i64, final_offset: i64) -> i64 {
-        let (mut steps, mut offset) = match destination.is_positive() {
-            true => (destination + 1, 1),
-            false => (destination.abs(), 0),
+    fn jump_destination(&self, context_index: usize, destination: i64, final_offset: i64) -> i64 {
+        let is_backward = destination.is_negative();
+        let (mut steps, mut offset) = match is_backward {
+            true => (destination.abs(), 0),
+            false => (destination + 1, 1),
         };
 
-        while steps != 0 {
-            let index = match destination.is_positive() {
-                true => context_index + offset,
-                false => context_index - offset,
+        // The steps might become negative if the destination is an instruction that got
+        // removed. In that case we jump to the instruction that took its place.
+        while steps > 0 {
+            let index = match is_backward {
+                true => context_index.checked_sub(offset),
+                false => context_index.checked_add(offset),
+            };
+
+            // If the destination is outside of the function, we keep the distance to the
+            // start or end of the function.
+            let Some(context) = index.and_then(|index| self.contexts.get(index)) else {
+                break;
             };
-            let context = self.contexts[index];
 
-            destination += context.line_weight * destination.signum();
             steps += context.line_weight - 1;
             offset += 1;
         }
 
-        destination + final_offset
+        let distance = offset as i64 + steps.max(0);
+
+        match is_backward {
+            true => -distance + final_offset,
+            false => distance - 2 + final_offset,
+        }
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
@@ -109,7 +122,8 @@ impl FunctionBuilder {
         let program_counter = self.get_program_counter();
         let new_bx = self.jump_destination(program_counter - 1, bx, 0);
 
-        Ok(((program_counter as i64) + new_bx) as usize)
+        // A malformed jump might end outside of the function.
+        Ok(((program_counter as i64) + new_bx).clamp(0, program_counter as i64) as usize)
     }
 
     pub(super) fn finalize(
-- 
2.43.0


From 49bba42d583f3b01decdd0c6f720e9e1dcce86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 13/18] fix: keep the instructions of stripped functions

---
 src/function/convert.rs | 14 +++++++++++++-
 src/function/upcast.rs  | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index d2e5edd..27aa397 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,3 +1,5 @@
+use std::iter::repeat;
+
 use super::builder::FunctionBuilder;
 use crate::function::instruction::{Generic, LuaInstruction, BC};
 use crate::{lua51, LunifyError, Settings};
@@ -16,6 +18,10 @@ pub(crate) fn convert(
 
     let mut builder = FunctionBuilder::default();
 
+    // Stripped byte code doesn't have any line info.
+    let is_stripped = line_info.is_empty();
+    let line_info = line_info.into_iter().chain(repeat(0));
+
     for (instruction, line_number) in instructions.into_iter().zip(line_info) {
         #[cfg(feature = "debug")]
         println!("[{}] {:?}", builder.get_program_counter(), instruction);
@@ -104,7 +110,13 @@ pub(crate) fn convert(
         };
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, mut line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    if is_stripped {
+        line_info.clear();
+    }
+
+    Ok((instructions, line_info))
 }
 
 #[cfg(test)]
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f716b3c..c967bb6 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,3 +1,5 @@
+use std::iter::repeat;
+
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
 use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
@@ -15,6 +17,10 @@ pub(crate) fn upcast(
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
+    // Stripped byte code doesn't have any line info.
+    let is_stripped = line_info.is_empty();
+    let line_info = line_info.into_iter().chain(repeat(0));
+
     for (instruction, line_number) in instructions.into_iter().zip(line_info) {
         builder.set_line_number(line_number);
 
@@ -354,7 +360,13 @@ pub(crate) fn upcast(
         });
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, mut line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    if is_stripped {
+        line_info.clear();
+    }
+
+    Ok((instructions, line_info))
 }
 
 #[cfg(test)]
-- 
2.43.0


From b710c588d7bd2643811c4a52a7155b2ec5602eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 14/18] fix: move the visibility of local variables together
 with the instructions

---
 src/function/builder.rs | 48 +++++++++++++++++++++++++++++++++++++++--
 src/function/convert.rs | 12 +++++------
 src/function/mod.rs     | 14 ++++++------
 src/function/upcast.rs  | 10 ++++-----
 4 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 959e9f6..243e267 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,3 +1,4 @@
+use super::local::LocalVariable;
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -30,6 +31,37 @@ impl InstructionContext {
     }
 }
 
+/// Debug information for the instructions of a function.
+#[derive(Debug, PartialEq, Eq)]
+pub(crate) struct DebugInfo {
+    pub(super) line_info: Vec<i64>,
+    /// New program counter for every original program counter. Empty if none of
+    /// the instructions moved.
+    positions: Vec<i64>,
+}
+
+impl DebugInfo {
+    /// Debug information of a function that has not been modified.
+    pub(super) fn unchanged(line_info: Vec<i64>) -> Self {
+        let positions = Vec::new();
+        Self { line_info, positions }
+    }
+
+    /// Adjust the program counters of local variables, so that they are visible
+    /// to the same instructions as before.
+    pub(super) fn adjust_local_variables(&self, local_variables: &mut [LocalVariable]) {
+        let adjust = |program_counter: &mut i64| {
+            let position = usize::try_from(*program_counter).ok().and_then(|index| self.positions.get(index));
+            *program_counter = position.copied().unwrap_or(*program_counter);
+        };
+
+        for local_variable in local_variables {
+            adjust(&mut local_variable.start_program_counter);
+            adjust(&mut local_variable.end_program_counter);
+        }
+    }
+}
+
 #[derive(Default)]
 pub(super) struct FunctionBuilder {
     contexts: Vec<InstructionContext>,
@@ -130,7 +162,7 @@ impl FunctionBuilder {
         mut self,
         maximum_stack_size: &mut u8,
         settings: &Settings,
-    ) -> Result<(Vec<Instruction>, Vec<i64>), LunifyError> {
+    ) -> Result<(Vec<Instruction>, DebugInfo), LunifyError> {
         #[cfg(feature = "debug")]
         println!("\n======== Output ========");
 
@@ -182,8 +214,20 @@ impl FunctionBuilder {
             }
         }
 
+        let mut positions = Vec::new();
+
+        for (position, context) in self.contexts.iter().enumerate() {
+            // Extra instructions don't have an original program counter but an instruction
+            // that took the place of a removed one has multiple.
+            positions.extend((context.line_weight..1).map(|_| position as i64));
+        }
+
+        positions.push(self.contexts.len() as i64);
+
         let instructions = self.contexts.into_iter().map(|context| context.instruction).collect();
-        Ok((instructions, self.line_info))
+        let line_info = self.line_info;
+
+        Ok((instructions, DebugInfo { line_info, positions }))
     }
 }
 
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 27aa397..0399dae 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,6 +1,6 @@
 use std::iter::repeat;
 
-use super::builder::FunctionBuilder;
+use super::builder::{DebugInfo, FunctionBuilder};
 use crate::function::instruction::{Generic, LuaInstruction, BC};
 use crate::{lua51, LunifyError, Settings};
 
@@ -9,11 +9,11 @@ pub(crate) fn convert(
     line_info: Vec<i64>,
     maximum_stack_size: &mut u8,
     settings: &Settings,
-) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+) -> Result<(Vec<lua51::Instruction>, DebugInfo), LunifyError> {
     // If `fields_per_flush` is the same, there is nothing to convert, so return
     // early.
     if settings.lua51.fields_per_flush == settings.output.fields_per_flush {
-        return Ok((instructions, line_info));
+        return Ok((instructions, DebugInfo::unchanged(line_info)));
     }
 
     let mut builder = FunctionBuilder::default();
@@ -110,13 +110,13 @@ pub(crate) fn convert(
         };
     }
 
-    let (instructions, mut line_info) = builder.finalize(maximum_stack_size, settings)?;
+    let (instructions, mut debug_info) = builder.finalize(maximum_stack_size, settings)?;
 
     if is_stripped {
-        line_info.clear();
+        debug_info.line_info.clear();
     }
 
-    Ok((instructions, line_info))
+    Ok((instructions, debug_info))
 }
 
 #[cfg(test)]
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0b5bd27..1cce723 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -251,18 +251,19 @@ impl Function {
             let constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
             let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
 
             // Convert from the input Lua 5.1 byte code to the desired output Lua 5.1
             // byte code.
-            let (instructions, line_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
+            let (instructions, debug_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
+            debug_info.adjust_local_variables(&mut local_variables);
             let instructions = Self::strip_instructions(instructions, settings)?;
 
-            (instructions, constants, functions, line_info, local_variables, upvalues)
+            (instructions, constants, functions, debug_info.line_info, local_variables, upvalues)
         } else {
             let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
@@ -275,7 +276,7 @@ impl Function {
             }
 
             // Up-cast instructions from Lua 5.0 to Lua 5.1.
-            let (instructions, line_info) = upcast(
+            let (instructions, debug_info) = upcast(
                 instructions,
                 line_info,
                 &mut constants,
@@ -285,9 +286,10 @@ impl Function {
                 settings,
             )?;
 
+            debug_info.adjust_local_variables(&mut local_variables);
             let instructions = Self::strip_instructions(instructions, settings)?;
 
-            (instructions, constants, functions, line_info, local_variables, upvalues)
+            (instructions, constants, functions, debug_info.line_info, local_variables, upvalues)
         };
 
         Ok(Self {
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index c967bb6..7de2938 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,6 +1,6 @@
 use std::iter::repeat;
 
-use super::builder::FunctionBuilder;
+use super::builder::{DebugInfo, FunctionBuilder};
 use super::constant::{Constant, ConstantManager};
 use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
@@ -13,7 +13,7 @@ pub(crate) fn upcast(
     parameter_count: u8,
     is_variadic: bool,
     settings: &Settings,
-) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+) -> Result<(Vec<lua51::Instruction>, DebugInfo), LunifyError> {
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
@@ -360,13 +360,13 @@ pub(crate) fn upcast(
         });
     }
 
-    let (instructions, mut line_info) = builder.finalize(maximum_stack_size, settings)?;
+    let (instructions, mut debug_info) = builder.finalize(maximum_stack_size, settings)?;
 
     if is_stripped {
-        line_info.clear();
+        debug_info.line_info.clear();
     }
 
-    Ok((instructions, line_info))
+    Ok((instructions, debug_info))
 }
 
 #[cfg(test)]
-- 
2.43.0


From ecbe5acc42bbddf75f21c7819fcd1fd2ab0416ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 15/18] fix: emit SETLIST instructions at the correct positions
 for any LFIELDS_PER_FLUSH

---
 src/function/builder.rs                  | 151 ++++++++++++++++++++++-
 src/function/convert.rs                  |  85 ++-----------
 src/function/instruction/macros.rs       |   2 +-
 src/function/instruction/operand/mode.rs |   4 +-
 src/function/upcast.rs                   |  85 ++-----------
 5 files changed, 170 insertions(+), 157 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 243e267..78c1133 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,3 +1,6 @@
+use std::ops::Range;
+
+use super::instruction::{Generic, LuaInstruction, Register, Unused, BC};
 use super::local::LocalVariable;
 use super::Settings;
 use crate::lua51::Instruction;
@@ -105,14 +108,154 @@ impl FunctionBuilder {
         self.contexts.last_mut().unwrap().final_offset = final_offset;
     }
 
-    pub(super) fn get_instruction(&mut self, index: usize) -> &mut Instruction {
-        &mut self.contexts[index].instruction
-    }
-
     pub(super) fn get_program_counter(&self) -> usize {
         self.contexts.len()
     }
 
+    /// Number of values in front of the ones that an open `CALL` or `VARARG`
+    /// will put on the stack for a table at `a`.
+    pub(super) fn open_value_position(&self, a: u64) -> u64 {
+        match self.contexts.last().map(|context| context.instruction) {
+            Some(Instruction::Call { a: position, .. } | Instruction::VarArg { a: position, .. }) => position.saturating_sub(a + 1),
+            _ => 0,
+        }
+    }
+
+    /// Move all stack accesses of the values for a table at `a`.
+    fn move_values(&mut self, range: Range<usize>, a: u64, offset: i64) {
+        for context in &mut self.contexts[range] {
+            context.instruction.move_stack_accesses(a + 1, offset);
+        }
+    }
+
+    /// Append a `SETLIST` instruction for the table at `a`.
+    ///
+    /// `first_index` is the number of values that previous `SETLIST`
+    /// instructions already moved to the table and `value_count` the number of
+    /// values that are on the stack since then. If `is_open` is set they are
+    /// followed by an unknown number of additional values.
+    ///
+    /// The number of values between two `SETLIST` instructions is fixed by
+    /// `LFIELDS_PER_FLUSH`, so if the output uses a different one we have to
+    /// emit them in other places. That also means that the values are in a
+    /// different position on the stack when they are moved to the table.
+    pub(super) fn set_list(
+        &mut self,
+        a: u64,
+        first_index: u64,
+        value_count: u64,
+        is_open: bool,
+        settings: &Settings,
+    ) -> Result<(), LunifyError> {
+        let fields_per_flush = settings.output.fields_per_flush.max(1);
+        let value_count = value_count.saturating_add(is_open as u64);
+        let last_index = first_index.saturating_add(value_count - 1);
+
+        // The values have to be on the stack, so there can only be so many of them.
+        let stack_size = a.saturating_add(value_count).saturating_add(1);
+        if stack_size > u8::MAX as u64 {
+            return Err(LunifyError::StackTooLarge(stack_size));
+        }
+
+        let b = match is_open {
+            true => 0,
+            false => last_index % fields_per_flush + 1,
+        };
+        let page = last_index / fields_per_flush + 1;
+
+        let mut end = self.contexts.len();
+        self.instruction(Instruction::SetList {
+            a,
+            mode: BC(Generic(b), Generic(page)),
+        });
+
+        // Good case: we are on the first page, so there is no need to modify the
+        // previous instructions.
+        if first_index == 0 && page == 1 {
+            return Ok(());
+        }
+
+        // Go back to the previous `SETLIST` or the `NEWTABLE` instruction, because that is
+        // where the setup of our values starts.
+        let is_start =
+            |context: &InstructionContext| matches!(context.instruction, Instruction::NewTable { a: table, .. } | Instruction::SetList { a: table, .. } if table == a);
+        let mut start = match self.contexts[..end].iter().rposition(is_start) {
+            Some(index) => index + 1,
+            None => 0,
+        };
+
+        // If the previous values didn't fill an entire page, they need to stay on the stack
+        // and are moved together with our values.
+        let remaining_values = first_index % fields_per_flush;
+        if remaining_values != 0 && start != 0 && matches!(self.contexts[start - 1].instruction, Instruction::SetList { .. }) {
+            self.remove_instruction(start - 1);
+            start -= 1;
+            end -= 1;
+        }
+
+        let mut offset = remaining_values as i64;
+        let mut page = first_index / fields_per_flush + 1;
+        let mut page_end = fields_per_flush - remaining_values;
+
+        // Add a new `SETLIST` instruction after the last value of every full page.
+        while page_end < value_count {
+            let last_value = a + page_end;
+            let is_last_value = |index: &usize| match self.contexts[*index].instruction {
+                Instruction::LoadNil { a, mode: BC(b, _) } => (a..=b.0).contains(&last_value),
+                instruction => matches!(instruction.stack_destination(), Some(destination) if destination.start == last_value),
+            };
+
+            // Since there are values after this one it should always be on the stack.
+            let Some(index) = (start..end).rev().find(is_last_value) else {
+                break;
+            };
+
+            let mut page_start = index + 1;
+
+            match &mut self.contexts[index].instruction {
+                // `LOADNIL` might set values of more than one page.
+                Instruction::LoadNil { mode: BC(b, _), .. } if b.0 > last_value => {
+                    let instruction = Instruction::LoadNil {
+                        a: last_value + 1,
+                        mode: BC(*b, Unused),
+                    };
+
+                    *b = Register(last_value);
+                    self.insert_extra_instruction(page_start, instruction);
+                    self.line_info[page_start] = self.line_info[index];
+                    end += 1;
+                }
+                // `CLOSURE` is followed by an instruction for each of the upvalues.
+                Instruction::Closure { .. } => {
+                    let is_upvalue =
+                        |context: &InstructionContext| matches!(context.instruction, Instruction::Move { a: 0, .. } | Instruction::GetUpValue { a: 0, .. });
+                    page_start += self.contexts[page_start..end].iter().take_while(|context| is_upvalue(context)).count();
+                }
+                _ => {}
+            }
+
+            self.move_values(start..page_start, a, offset);
+            self.insert_extra_instruction(page_start, Instruction::SetList {
+                a,
+                mode: BC(Generic(fields_per_flush), Generic(page)),
+            });
+
+            // Every jump to the end of the value needs to execute the `SETLIST` instruction.
+            let line_weight = self.contexts[page_start + 1].line_weight;
+            self.contexts[page_start + 1].line_weight = self.contexts[page_start].line_weight;
+            self.contexts[page_start].line_weight = line_weight;
+
+            start = page_start + 1;
+            end += 1;
+            offset -= fields_per_flush as i64;
+            page += 1;
+            page_end += fields_per_flush;
+        }
+
+        self.move_values(start..end, a, offset);
+        Ok(())
+    }
+
     fn jump_destination(&self, context_index: usize, destination: i64, final_offset: i64) -> i64 {
         let is_backward = destination.is_negative();
         let (mut steps, mut offset) = match is_backward {
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 0399dae..ea181aa 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,7 +1,7 @@
 use std::iter::repeat;
 
 use super::builder::{DebugInfo, FunctionBuilder};
-use crate::function::instruction::{Generic, LuaInstruction, BC};
+use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
 pub(crate) fn convert(
@@ -30,81 +30,18 @@ pub(crate) fn convert(
 
         match instruction {
             lua51::Instruction::SetList { a, mode: BC(b, c) } => {
-                let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // If b was 0 before, we need to keep it that way.
-                let b = match b.0 {
-                    0 => 0,
-                    _ => offset,
-                };
-
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
+                // The page of very large tables is stored in place of the next instruction, which
+                // is not supported.
+                let page = c.0.checked_sub(1).ok_or(LunifyError::ValueTooBigForOperand)?;
+                let first_index = page.saturating_mul(settings.lua51.fields_per_flush);
+
+                match b.0 {
+                    0 => {
+                        let value_count = builder.open_value_position(a);
+                        builder.set_list(a, first_index, value_count, true, settings)?
                     }
+                    value_count => builder.set_list(a, first_index, value_count, false, settings)?,
                 }
-
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
             }
             instruction => builder.instruction(instruction),
         };
diff --git a/src/function/instruction/macros.rs b/src/function/instruction/macros.rs
index 63fb759..36c2b2d 100644
--- a/src/function/instruction/macros.rs
+++ b/src/function/instruction/macros.rs
@@ -35,7 +35,7 @@ macro_rules! lua_instructions {
                         if $move_a {
                             let value = *a;
                             if value >= stack_start {
-                                *a = (value as i64 + offset) as u64;
+                                *a = (value as i64 + offset).max(0) as u64;
                             }
                         }
                         mode.offset(stack_start, offset);
diff --git a/src/function/instruction/operand/mode.rs b/src/function/instruction/operand/mode.rs
index 86989bd..efd7842 100644
--- a/src/function/instruction/operand/mode.rs
+++ b/src/function/instruction/operand/mode.rs
@@ -65,7 +65,7 @@ impl ModePut for Register {
 impl ModeOffset for Register {
     fn offset(&mut self, stack_start: u64, offset: i64) {
         if self.0 >= stack_start {
-            self.0 = (self.0 as i64 + offset) as u64;
+            self.0 = (self.0 as i64 + offset).max(0) as u64;
         }
     }
 }
@@ -118,7 +118,7 @@ impl ModePut for ConstantRegister {
 impl ModeOffset for ConstantRegister {
     fn offset(&mut self, stack_start: u64, offset: i64) {
         if self.0 >= stack_start && !self.1 {
-            self.0 = (self.0 as i64 + offset) as u64;
+            self.0 = (self.0 as i64 + offset).max(0) as u64;
         }
     }
 }
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 7de2938..7c9842c 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -2,7 +2,7 @@ use std::iter::repeat;
 
 use super::builder::{DebugInfo, FunctionBuilder};
 use super::constant::{Constant, ConstantManager};
-use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
+use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
 
 pub(crate) fn upcast(
@@ -241,82 +241,15 @@ pub(crate) fn upcast(
                 builder.extra_instruction(lua51::Instruction::Jump { a, mode });
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
-                let flat_index = bx + 1;
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
-                // of `SETLISTO` is used when b is equal to zero.
-                let b = match matches!(instruction, lua50::Instruction::SetListO { .. }) {
-                    true => 0,
-                    false => offset,
-                };
-
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua50.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
+                let fields_per_flush = settings.lua50.fields_per_flush.max(1);
+                let value_count = bx % fields_per_flush;
+                let first_index = bx - value_count;
+
+                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction.
+                match instruction {
+                    lua50::Instruction::SetListO { .. } => builder.set_list(a, first_index, value_count, true, settings)?,
+                    _ => builder.set_list(a, first_index, value_count + 1, false, settings)?,
                 }
-
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
             }
             lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),
             lua50::Instruction::Closure { a, mode } => builder.instruction(lua51::Instruction::Closure { a, mode }),
-- 
2.43.0


From c56933d1435d2d9bb8012f5a94db662e8d60ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 16/18] fix: don't expand TFORLOOP instructions beyond the size
 of the stack

---
 src/function/upcast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 7c9842c..6966651 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -113,6 +113,13 @@ pub(crate) fn upcast(
 
                     let variable_count = c.0 + 1;
                     let call_base = a + variable_count + 2;
+
+                    // Make sure that we don't create instructions that can't be valid.
+                    let stack_size = call_base + variable_count;
+                    if stack_size > u8::MAX as u64 {
+                        return Err(LunifyError::StackTooLarge(stack_size));
+                    }
+
                     let constant_nil = constant_manager.constant_nil();
 
                     // Move the iterator function, the table and the index to our call base.
-- 
2.43.0


From 208d4b409614d18f9c64a2898c24066c66f71ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 17/18] fix: reject tables with more values than Lua is able to
 index

---
 src/function/builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 78c1133..77b2296 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -151,6 +151,11 @@ impl FunctionBuilder {
         let value_count = value_count.saturating_add(is_open as u64);
         let last_index = first_index.saturating_add(value_count - 1);
 
+        // Lua uses an `int` for the index of a value.
+        if last_index > i32::MAX as u64 {
+            return Err(LunifyError::ValueTooBigForOperand);
+        }
+
         // The values have to be on the stack, so there can only be so many of them.
         let stack_size = a.saturating_add(value_count).saturating_add(1);
         if stack_size > u8::MAX as u64 {
-- 
2.43.0


From feb45909be6365c0210150365694cc3787db2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:11 +0000
Subject: [PATCH 18/18] fix: report strings that are too long for the output
 format

---
 src/function/mod.rs         |  8 ++++----
 src/serialization/writer.rs | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 1cce723..02c6edb 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -311,7 +311,7 @@ impl Function {
 
     pub(crate) fn write(self, byte_writer: &mut ByteWriter) -> Result<(), LunifyError> {
         // function
-        byte_writer.string(&self.source_file);
+        byte_writer.checked_string(&self.source_file)?;
         byte_writer.checked_integer(self.line_defined)?;
         byte_writer.checked_integer(self.last_line_defined)?;
         byte_writer.byte(self.upvalue_count);
@@ -345,7 +345,7 @@ impl Function {
 
                 Constant::String(string) => {
                     byte_writer.byte(4);
-                    byte_writer.string(&string);
+                    byte_writer.checked_string(&string)?;
                 }
             }
         }
@@ -365,7 +365,7 @@ impl Function {
         // local variables
         byte_writer.checked_integer(self.local_variables.len() as i64)?;
         for local_variable in self.local_variables {
-            byte_writer.string(&local_variable.name);
+            byte_writer.checked_string(&local_variable.name)?;
             byte_writer.checked_integer(local_variable.start_program_counter)?;
             byte_writer.checked_integer(local_variable.end_program_counter)?;
         }
@@ -373,7 +373,7 @@ impl Function {
         // upvalues
         byte_writer.checked_integer(self.upvalues.len() as i64)?;
         for upvalue in self.upvalues {
-            byte_writer.string(&upvalue);
+            byte_writer.checked_string(&upvalue)?;
         }
 
         Ok(())
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index c0d30b5..a1b57fd 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -87,6 +87,17 @@ impl<'a> ByteWriter<'a> {
         self.data.extend(value.chars().map(|character| character as u8));
     }
 
+    /// Same as [`ByteWriter::string`] but doesn't truncate the length of the
+    /// string.
+    pub fn checked_string(&mut self, value: &str) -> Result<(), LunifyError> {
+        if self.format.size_t_width == BitWidth::Bit32 && i32::try_from(value.chars().count()).is_err() {
+            return Err(LunifyError::IntegerOverflow);
+        }
+
+        self.string(value);
+        Ok(())
+    }
+
     pub fn finalize(self) -> Vec<u8> {
         self.data
     }
-- 
2.43.0

