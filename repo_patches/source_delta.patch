From e7dc1f1d68b61e76a81943ec6899dab91d5be24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:37 +0000
Subject: [PATCH 01/38] fix: write putstatic for static field stores

---
 src/code/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0ed456d..3f1748d 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -758,7 +758,7 @@ impl Conv {
                     (GetOrPut::Get, MemberType::Virtual) => GETFIELD,
                     (GetOrPut::Put, MemberType::Virtual) => PUTFIELD,
                     (GetOrPut::Get, MemberType::Static) => GETSTATIC,
-                    (GetOrPut::Put, MemberType::Static) => GETSTATIC,
+                    (GetOrPut::Put, MemberType::Static) => PUTSTATIC,
                 }
                 .write_to(&mut cursor)?;
                 cp.insert_ordynamic(mem.clone(), ConstantPoolWriter::insert_member)
-- 
2.43.0


From 078bc9a61b693e700820d4c7f48afb27c4c3174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:04 +0000
Subject: [PATCH 02/38] fix: refuse descriptors with trailing input, nested
 methods or too many dimensions

---
 src/ty.rs | 54 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index 14db75a..cb858d5 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -115,29 +115,13 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                 let mut dim: u8 = 1;
                 while Some('['.into()) == c.as_str().codepoints().next() {
                     c.next();
-                    dim += 1;
+                    dim = dim.checked_add(1).ok_or_else(|| {
+                        crate::error::Error::Invalid("type", "more than 255 dimensions".into())
+                    })?;
                 }
                 let r = get_type(c)?;
                 Type::ArrayRef(dim, Box::new(r))
             }
-            Some('(') => {
-                let mut types = Vec::new();
-                while c.as_str().codepoints().next().unwrap_or_else(|| ')'.into()) != ')' {
-                    types.push(get_type(c)?)
-                }
-                if c.next().is_none() {
-                    return Err(unexpected_end());
-                } else {
-                    Type::Method {
-                        parameters: types,
-                        ret: if Some('V'.into()) == c.as_str().codepoints().next() {
-                            None
-                        } else {
-                            Some(Box::new(get_type(c)?))
-                        },
-                    }
-                }
-            }
             Some(ch) => {
                 return Err(crate::error::Error::Invalid(
                     "type character",
@@ -147,7 +131,37 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints())
+    let c = &mut s.codepoints();
+    // Only a whole descriptor can be a method type: parameters, return types and array elements are
+    // field types.
+    let ty = if Some('('.into()) == c.as_str().codepoints().next() {
+        c.next();
+        let mut types = Vec::new();
+        while c.as_str().codepoints().next().unwrap_or_else(|| ')'.into()) != ')' {
+            types.push(get_type(c)?)
+        }
+        if c.next().is_none() {
+            return Err(unexpected_end());
+        }
+        Type::Method {
+            parameters: types,
+            ret: if Some('V'.into()) == c.as_str().codepoints().next() {
+                c.next();
+                None
+            } else {
+                Some(Box::new(get_type(c)?))
+            },
+        }
+    } else {
+        get_type(c)?
+    };
+    if c.next().is_some() {
+        return Err(crate::error::Error::Invalid(
+            "type (trailing characters)",
+            s.to_string_lossy().into_owned().into(),
+        ));
+    }
+    Ok(ty)
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From 505c54b20709a33f1eed0c677fa95386f441f4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:44 +0000
Subject: [PATCH 03/38] fix: read the operand of anewarray and multianewarray
 as a class name, not a descriptor

---
 src/code/convert.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3f1748d..0293c14 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -14,6 +14,15 @@ use crate::try_cp_read_idx;
 
 pub struct Conv;
 
+/// The type that the name of a class constant denotes: array classes are named by their descriptor.
+fn class_type(name: Cow<'static, wtf_8::Wtf8Str>) -> Result<Type> {
+    if name.codepoints().next().map_or(false, |x| x == '[') {
+        parse_type(&name)
+    } else {
+        Ok(Type::Ref(name))
+    }
+}
+
 impl Conv {
     pub(crate) fn convert_direct_instruction<T: ConstantPoolReader>(
         insn: I,
@@ -352,19 +361,28 @@ impl Conv {
             I::NewArray(n) => return Err(Error::Invalid("NewArray type", n.to_string().into())),
 
             I::ANewArray(r) => NewArray(
-                try_cp_read!(
+                match try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                )? {
+                    OrDynamic::Static(c) => OrDynamic::Static(class_type(c)?),
+                    OrDynamic::Dynamic(d) => OrDynamic::Dynamic(d),
+                },
                 1,
             ),
             I::MultiANewArray(r, dim) => NewArray(
-                try_cp_read!(
+                match try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                )? {
+                    OrDynamic::Static(c) => OrDynamic::Static(match (class_type(c)?, dim) {
+                        // with one dimension, the type is the one of the elements.
+                        (Type::ArrayRef(1, elem), 1) => *elem,
+                        (Type::ArrayRef(n, elem), 1) => Type::ArrayRef(n - 1, elem),
+                        (ty, _) => ty,
+                    }),
+                    OrDynamic::Dynamic(d) => OrDynamic::Dynamic(d),
+                },
                 dim,
             ),
             I::CheckCast(r) => CheckCast(
-- 
2.43.0


From 0f9af61b018703c0bcbdcae57d8f963b5ec70472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:48 +0000
Subject: [PATCH 04/38] fix: write the array creation instructions

---
 src/code/convert.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0293c14..b785736 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -23,6 +23,21 @@ fn class_type(name: Cow<'static, wtf_8::Wtf8Str>) -> Result<Type> {
     }
 }
 
+/// The operand of `newarray` for arrays of a primitive type.
+fn newarray_type(ty: &Type) -> Option<u8> {
+    Some(match ty {
+        Type::Boolean => 4,
+        Type::Char => 5,
+        Type::Float => 6,
+        Type::Double => 7,
+        Type::Byte => 8,
+        Type::Short => 9,
+        Type::Int => 10,
+        Type::Long => 11,
+        _ => return None,
+    })
+}
+
 impl Conv {
     pub(crate) fn convert_direct_instruction<T: ConstantPoolReader>(
         insn: I,
@@ -716,7 +731,38 @@ impl Conv {
                 cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(x))
                     .write_to(&mut cursor)?;
             }
-            Instruction::NewArray(_, _) => {}
+            Instruction::NewArray(OrDynamic::Static(ref ty), 1) if newarray_type(ty).is_some() => {
+                NEWARRAY.write_to(&mut cursor)?;
+                newarray_type(ty).unwrap().write_to(&mut cursor)?;
+            }
+            Instruction::NewArray(ref ty, dim) => {
+                if let OrDynamic::Static(ty) = ty {
+                    let valid = match ty {
+                        Type::Ref(_) => dim == 1,
+                        Type::ArrayRef(n, _) => (1..=*n).contains(&dim),
+                        _ => false,
+                    };
+                    if !valid {
+                        return Err(Error::Invalid(
+                            "NewArray type",
+                            format!("{ty} with {dim} dimensions").into(),
+                        ));
+                    }
+                } else if dim == 0 {
+                    return Err(Error::Invalid("NewArray dimensions", "0".into()));
+                }
+                if dim == 1 { ANEWARRAY } else { MULTIANEWARRAY }.write_to(&mut cursor)?;
+                cp.insert_ordynamic(ty.clone(), |w, x| {
+                    w.insert_class(match x {
+                        Type::Ref(name) => name,
+                        x => Cow::Owned(wtf_8::Wtf8String::from(&x)),
+                    })
+                })
+                .write_to(&mut cursor)?;
+                if dim != 1 {
+                    dim.write_to(&mut cursor)?;
+                }
+            }
             Instruction::Monitor(MonitorOperation::Enter) => MONITORENTER.write_to(&mut cursor)?,
             Instruction::Monitor(MonitorOperation::Exit) => MONITOREXIT.write_to(&mut cursor)?,
             Instruction::Conversion(NumberType::Long, NumberType::Int) => {
-- 
2.43.0


From 15f662cf7969303eaa24d0c49a0c98b2291a68c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:29 +0000
Subject: [PATCH 05/38] fix: read dynamically-computed constants in ldc, ldc_w
 and ldc2_w

---
 src/code/convert.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index b785736..0a240ff 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -97,8 +97,14 @@ impl Conv {
             I::Bipush(b) => push(Constant::I32(b as i32)),
             I::Sipush(s) => push(Constant::I32(s as i32)),
 
-            I::Ldc(b) => push(try_cp_read_idx!(labeler, b as u16, read_constant)?),
-            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read_idx!(labeler, i, read_constant)?),
+            I::Ldc(b) => Push(try_cp_read!(
+                b,
+                labeler.read_or_dynamic(b as u16, ConstantPoolReader::read_constant)
+            )?),
+            I::LdcW(i) | I::Ldc2W(i) => Push(try_cp_read!(
+                i,
+                labeler.read_or_dynamic(i, ConstantPoolReader::read_constant)
+            )?),
 
             I::IALoad => Array(Load, ArrayType::Int),
             I::LALoad => Array(Load, ArrayType::Long),
-- 
2.43.0


From 0fa515846c48e912f517a753546eb7f8ed714428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:33 +0000
Subject: [PATCH 06/38] fix: size jumps by their relative offset and write far
 conditional jumps correctly

---
 src/code.rs | 162 ++++++++++++++++++++++++----------------------------
 1 file changed, 76 insertions(+), 86 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 716b6c7..3f3c411 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -281,30 +281,11 @@ impl ConstantPoolReadWrite for Code {
             )?;
         }
         buf.push(cursor.into_inner());
-        let mut index_hints = Vec::new();
-        let mut last_max_index = 0usize;
-        let mut buf_iter = buf.iter();
-        // Get minimum/maximum starting index of the next buffer, that is: index_hints[n] is max of buf[n + 1] resulting index.
-        for j in &jumps {
-            let this_size_max = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => 11 + table.len() * 8,
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => 15 + offsets.len() * 4, // +3 alignment
-                Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) => 4, // goto_w/jsr_w i32
-                Instruction::Jump(_, _) => 7, // conditional jumps can't be wide, so there must be a conversion.
-                // other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_max_index += this_size_max + buf_iter.next().unwrap().len();
-            index_hints.push(last_max_index);
-        }
         /*
-        determine the actual size by partially resolving the label through index_hints
-            Optimize for possible non-wide jumps, and convert conditional jumps to make it wide-compatible:
-            such as:
+        Determine the actual sizes of the jumps: every jump starts out short, and the ones whose
+        offset does not fit are made wide until all of them fit. Making a jump wide moves the code
+        after it, so this has to be repeated until nothing changes.
+            Conditional jumps can't be wide, so they are converted:
                 ifnull far_away
                 ops
             gets converted to
@@ -313,76 +294,83 @@ impl ConstantPoolReadWrite for Code {
                 cont:
                     ops
         */
-        // Where the elements of `buf` end up.
+        let mut wide = vec![false; jumps.len()];
+        // Where the elements of `buf` (except the first one, which starts at 0) end up.
         let mut actual_indices = Vec::new();
-        // the index at the opcode byte of the jump instruction.
-        let mut last_idx = 0;
-        buf_iter = buf.iter();
         let mut sizes_of_jump_insns = Vec::new();
-        for j in &jumps {
-            last_idx += buf_iter.next().unwrap().len();
-            let actual_size = 1 + match *j {
-                Instruction::LookupSwitch { default: _, table } => {
-                    // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
-                    // default target begins if there was no padding.
-
-                    // Calculate the modulus and find the padding.
-                    // 0 1 2 3 4
-                    // * * * * x -> * * * * x (0 -> 0)
-                    // * * * x   -> * * * p x (3 -> 1)
-                    // * * x     -> * * p p x (2 -> 2)
-                    // * x       -> * p p p x (1 -> 3)
-
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 8 + table.len() * 8
-                }
-                Instruction::TableSwitch {
-                    default: _,
-                    low: _,
-                    offsets,
-                } => {
-                    // see comments above for finding the padding.
-                    let modulus = (last_idx + 1) % 4;
-                    let padding = if modulus == 0 { 0 } else { 4 - modulus };
-                    padding + 12 + offsets.len() * 4
-                }
-                Instruction::Jsr(target) | Instruction::Jump(JumpCondition::Always, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        4
+        loop {
+            actual_indices.clear();
+            sizes_of_jump_insns.clear();
+            // the index at the opcode byte of the jump instruction.
+            let mut last_idx = 0;
+            for ((j, bytes), &wide) in jumps.iter().zip(&buf).zip(&wide) {
+                last_idx += bytes.len();
+                let actual_size = 1 + match *j {
+                    Instruction::LookupSwitch { default: _, table } => {
+                        // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
+                        // default target begins if there was no padding.
+
+                        // Calculate the modulus and find the padding.
+                        // 0 1 2 3 4
+                        // * * * * x -> * * * * x (0 -> 0)
+                        // * * * x   -> * * * p x (3 -> 1)
+                        // * * x     -> * * p p x (2 -> 2)
+                        // * x       -> * p p p x (1 -> 3)
+
+                        let modulus = (last_idx + 1) % 4;
+                        let padding = if modulus == 0 { 0 } else { 4 - modulus };
+                        padding + 8 + table.len() * 8
                     }
-                }
-                Instruction::Jump(_, target) => {
+                    Instruction::TableSwitch {
+                        default: _,
+                        low: _,
+                        offsets,
+                    } => {
+                        // see comments above for finding the padding.
+                        let modulus = (last_idx + 1) % 4;
+                        let padding = if modulus == 0 { 0 } else { 4 - modulus };
+                        padding + 12 + offsets.len() * 4
+                    }
+                    // opcode i16
+                    Instruction::Jsr(_) | Instruction::Jump(_, _) if !wide => 2,
+                    // goto_w/jsr_w i32
+                    Instruction::Jsr(_) | Instruction::Jump(JumpCondition::Always, _) => 4,
+                    // opcode i16 goto_w i32
+                    Instruction::Jump(_, _) => 7,
+                    // other variants are not inserted
+                    _ => unreachable!(),
+                };
+                last_idx += actual_size;
+                sizes_of_jump_insns.push(actual_size);
+                actual_indices.push(last_idx);
+            }
+            let mut changed = false;
+            for (i, j) in jumps.iter().enumerate() {
+                if let Instruction::Jsr(target) | Instruction::Jump(_, target) = *j {
                     let (buf_idx, buf_off) = get_label!(target);
                     let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
+                        actual_indices[buf_idx - 1]
                     } else {
                         0
                     } + buf_off;
-                    if target_off <= 65535 {
-                        2
-                    } else {
-                        7
+                    let jump_off = actual_indices[i] - sizes_of_jump_insns[i];
+                    if !wide[i] && i16::try_from(target_off as i64 - jump_off as i64).is_err() {
+                        wide[i] = true;
+                        changed = true;
                     }
                 }
-                // SAFETY: other variants are not inserted
-                _ => unreachable!(),
-            };
-            last_idx += actual_size;
-            sizes_of_jump_insns.push(actual_size);
-            actual_indices.push(last_idx);
+            }
+            if !changed {
+                break;
+            }
         }
+        let last_idx = actual_indices.last().copied().unwrap_or(0);
         // The index of the second last `buf` element + length of last element.
-        let code_len = (buf_iter.next().unwrap().len() + last_idx) as u32;
-        code_len.write_to(writer)?; // u4 code_length
+        let code_len = buf.last().unwrap().len() + last_idx;
+        if code_len > u16::MAX as usize {
+            return Err(Error::Invalid("code length", code_len.to_string().into()));
+        }
+        (code_len as u32).write_to(writer)?; // u4 code_length
         let mut jumps_iter = jumps.into_iter();
         let mut buf_iter = buf.into_iter();
         writer.write_all(&buf_iter.next().unwrap())?;
@@ -405,10 +393,11 @@ impl ConstantPoolReadWrite for Code {
             macro_rules! wide {
                 ($label: ident, $off: ident => $non_wide: expr, $wide: expr) => {{
                     let $off = resolve_label!($label);
-                    if let Ok($off) = i16::try_from($off) {
-                        $non_wide
-                    } else {
+                    if wide[i] {
                         $wide
+                    } else {
+                        let $off = i16::try_from($off).unwrap();
+                        $non_wide
                     }
                 }};
             }
@@ -472,9 +461,10 @@ impl ConstantPoolReadWrite for Code {
                     }, {
                         // JumpCondition::Always is matched before this
                         u8::write_to(&(-cond).unwrap().into(), writer)?;
-                        write_to!(&5i32, writer)?;
+                        write_to!(&8i16, writer)?;
                         GOTO_W.write_to(writer)?;
-                        write_to!(&off, writer)?;
+                        // the offset is relative to the goto_w, not to the inverted jump.
+                        write_to!(&(off - 3), writer)?;
                     })
                 }
                 // other variants are not inserted
-- 
2.43.0


From a40d90d363bd8f3583ac48ae6b7688fe154967db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:07 +0000
Subject: [PATCH 07/38] fix: write the line numbers of a method

---
 src/code.rs         | 17 ++++++++++++++++-
 src/code/convert.rs |  4 ++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 3f3c411..9935ac3 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -259,7 +259,7 @@ impl ConstantPoolReadWrite for Code {
         let mut buf: Vec<Vec<u8>> = Vec::new();
         let mut jumps: Vec<&Instruction> = Vec::new();
         let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        let mut line_numbers: HashMap<usize, u16> = HashMap::new();
+        let mut line_numbers: Vec<((usize, usize), u16)> = Vec::new();
         let mut labels: HashMap<Label, (usize, usize)> = HashMap::new();
         macro_rules! get_label {
             ($label: expr) => {
@@ -591,6 +591,21 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if !line_numbers.is_empty() {
+            extra_attrs += 1;
+            let table = line_numbers
+                .into_iter()
+                .map(|((buf_off, inner_off), line)| {
+                    let off = if buf_off == 0 {
+                        0
+                    } else {
+                        actual_indices[buf_off - 1]
+                    } + inner_off;
+                    LineNumber(off as u16, line)
+                })
+                .collect();
+            CodeAttr::LineNumberTable(table).write_to(&mut labeler, &mut attributes_writer)?;
+        }
         (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0a240ff..a0941b2 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -456,7 +456,7 @@ impl Conv {
         jumps: &mut Vec<&'a Instruction>,
         buf: &mut Vec<Vec<u8>>,
         labels: &mut HashMap<Lbl, (usize, usize)>,
-        line_numbers: &mut HashMap<usize, u16>,
+        line_numbers: &mut Vec<((usize, usize), u16)>,
         insn: &'a Instruction,
         cp: &mut W,
     ) -> Result<Cursor<Vec<u8>>> {
@@ -865,7 +865,7 @@ impl Conv {
             Instruction::Swap => SWAP.write_to(&mut cursor)?,
             Instruction::IntIncrement(l, inc) => wide_or_normal!(IINC, l => u8, inc => i8),
             Instruction::LineNumber(ln) => {
-                line_numbers.insert(cursor.position() as usize, ln);
+                line_numbers.push(((buf.len(), cursor.position() as usize), ln));
             }
             Instruction::LookupSwitch { .. }
             | Instruction::TableSwitch { .. }
-- 
2.43.0


From dceb040f3a571a6f19487e734024293bc88bd631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:11 +0000
Subject: [PATCH 08/38] fix: keep every line number entry of a position and
 refuse entries between instructions

---
 src/code.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 9935ac3..ddd066b 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -157,7 +157,10 @@ impl ConstantPoolReadWrite for Code {
             match CodeAttr::read_from(&mut labeler, reader)? {
                 CodeAttr::LineNumberTable(ln) => {
                     for self::LineNumber(off, line) in ln {
-                        to_insert.insert(pos2idx[&(off as u32)], vec![LineNumber(line)]);
+                        let idx = *pos2idx
+                            .get(&(off as u32))
+                            .ok_or_else(|| Error::Invalid("index", format!("{off}").into()))?;
+                        to_insert.entry(idx).or_default().push(LineNumber(line));
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
@@ -221,8 +224,6 @@ impl ConstantPoolReadWrite for Code {
                 local_vars.into_values().collect(),
             ));
         }
-        instructions.reserve(to_insert.len());
-        instructions.reserve(labeler.labels.len());
         for (k, v) in labeler.labels {
             to_insert
                 .entry(
@@ -231,17 +232,21 @@ impl ConstantPoolReadWrite for Code {
                         .ok_or_else(|| Error::Invalid("index", format!("{k}").into()))?,
                 )
                 .or_default()
-                .push(Label(v));
+                .insert(0, Label(v));
         }
-        for (k, v) in to_insert.into_iter().rev() {
-            for i in v {
-                instructions.insert(k, i)
-            }
+        let mut code = Vec::with_capacity(instructions.len() + to_insert.len());
+        let mut instructions = instructions.into_iter();
+        let mut idx = 0;
+        for (k, v) in to_insert {
+            code.extend(instructions.by_ref().take(k - idx));
+            code.extend(v);
+            idx = k;
         }
+        code.extend(instructions);
         Ok(Code {
             max_stack,
             max_locals,
-            code: instructions,
+            code,
             catches,
             attrs,
         })
-- 
2.43.0


From f84706d79e2600c896f6885da6de44f5dec42a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:28 +0000
Subject: [PATCH 09/38] fix: do not overflow on the end of a local variable's
 range

---
 src/code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index ddd066b..ac8be13 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -166,7 +166,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTable(localvar) => {
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
 
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
@@ -189,7 +189,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
                             Entry::Occupied(mut e) => {
-- 
2.43.0


From 21340b327e14cc7bfffed725b8c3a1f472032b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:32 +0000
Subject: [PATCH 10/38] fix: keep local variables in the order of their tables

---
 src/code.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index ac8be13..ab95053 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,7 +1,6 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
-use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -19,6 +18,7 @@ mod convert;
 mod structure;
 
 use convert::*;
+use indexmap::map::{Entry, IndexMap};
 use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
@@ -146,9 +146,9 @@ impl ConstantPoolReadWrite for Code {
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
-        // A HashMap is used to locate existing local variable data described
+        // An IndexMap is used to locate existing local variable data described
         // by an attribute from before.
-        let mut local_vars: HashMap<LocalVarKey, LocalVar> = HashMap::new();
+        let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
-- 
2.43.0


From 2fff35704ff586e5489958965e1b239cd0d176f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 11/38] fix: report labels that are not in the code instead of
 panicking

---
 src/code.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index ab95053..38c7fa9 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -483,6 +483,8 @@ impl ConstantPoolReadWrite for Code {
             labels: &'a HashMap<Label, (usize, usize)>,
             writer: &'a mut T,
             catches: &'a Vec<Catch>,
+            /// A label that was looked up but is not in the code.
+            missing: Option<Label>,
         }
 
         impl<'a, T: ConstantPoolWriter> ConstantPoolWriter for Labeler<'a, T> {
@@ -497,7 +499,14 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
+                let (buf_off, inner_off) = match self.labels.get(lbl) {
+                    Some(off) => *off,
+                    None => {
+                        // The error is reported once everything that uses labels is written.
+                        self.missing = Some(*lbl);
+                        return 0;
+                    }
+                };
                 (if buf_off == 0 {
                     0
                 } else {
@@ -519,6 +528,7 @@ impl ConstantPoolReadWrite for Code {
             labels: &labels,
             writer: cp,
             catches: &self.catches,
+            missing: None,
         };
         for Catch {
             start,
@@ -611,6 +621,12 @@ impl ConstantPoolReadWrite for Code {
                 .collect();
             CodeAttr::LineNumberTable(table).write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if let Some(label) = labeler.missing {
+            return Err(Error::Invalid(
+                "referenced label",
+                label.0.to_string().into(),
+            ));
+        }
         (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
-- 
2.43.0


From adbd72e65ff6d0ae83377e275a3dd2046981f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:03 +0000
Subject: [PATCH 12/38] fix: refuse local variable ranges that end before they
 start

---
 src/annotation/type_annotation.rs |  2 +-
 src/code.rs                       | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 78246ae..3bf2bfe 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -74,7 +74,7 @@ impl ConstantPoolReadWrite for LocalVarTarget {
         let start = cp.label(&self.start);
         let end = cp.label(&self.end);
         start.write_to(writer)?;
-        (end - start).write_to(writer)?;
+        crate::code::range_length(start, end)?.write_to(writer)?;
         self.idx.write_to(writer)?;
         Ok(())
     }
diff --git a/src/code.rs b/src/code.rs
index 38c7fa9..574ef4f 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -564,7 +564,7 @@ impl ConstantPoolReadWrite for Code {
                     for lc in l {
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let len = range_length(start, labeler.label(&lc.end))?;
                             var.push(LocalVar {
                                 start,
                                 len,
@@ -575,7 +575,7 @@ impl ConstantPoolReadWrite for Code {
                         }
                         if let Some(ref sig) = lc.signature {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let len = range_length(start, labeler.label(&lc.end))?;
                             ty.push(LocalVarType {
                                 start,
                                 len,
@@ -633,6 +633,16 @@ impl ConstantPoolReadWrite for Code {
     }
 }
 
+/// The length of the range of a local variable, which must not end before it starts.
+pub(crate) fn range_length(start: u16, end: u16) -> Result<u16> {
+    end.checked_sub(start).ok_or_else(|| {
+        Error::Invalid(
+            "local variable range",
+            format!("{start} to {end}").into(),
+        )
+    })
+}
+
 #[derive(Debug, Eq, PartialEq, Hash, Clone, ConstantPoolReadWrite)]
 #[coffer(tag_type(u8))]
 pub enum VerificationType {
-- 
2.43.0


From 947c4db9aae37f6b688d6eec899b8dedaee372dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:06 +0000
Subject: [PATCH 13/38] fix: refuse annotations on exception handlers that are
 not in the code

---
 src/code/structure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/code/structure.rs b/src/code/structure.rs
index e83fc6f..d2d62ff 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -456,8 +456,10 @@ impl ConstantPoolReadWrite for Catch {
     ) -> crate::Result<(), Error> {
         match cp.catch(self) {
             Some(off) => off.write_to(writer),
-            // Ignore here because the block was probably removed.
-            None => Ok(()),
+            None => Err(Error::Invalid(
+                "catch",
+                "the annotated exception handler is not in the code".into(),
+            )),
         }
     }
 }
-- 
2.43.0


From 74d10339d680cf18027e49c3743d3223541ac1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:07 +0000
Subject: [PATCH 14/38] fix: refuse empty and overflowing table switches on
 writing

---
 src/code.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/code.rs b/src/code.rs
index 574ef4f..6f987a7 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -275,6 +275,15 @@ impl ConstantPoolReadWrite for Code {
         }
 
         for insn in self.code.iter() {
+            if let Instruction::TableSwitch { low, offsets, .. } = insn {
+                let high = *low as i64 + offsets.len() as i64 - 1;
+                if offsets.is_empty() || i32::try_from(high).is_err() {
+                    return Err(Error::Invalid(
+                        "table switch",
+                        format!("{} cases from {low}", offsets.len()).into(),
+                    ));
+                }
+            }
             cursor = Conv::write_insn(
                 cursor,
                 &mut jumps,
-- 
2.43.0


From 1adf57ec5ee3c5698b9d0da008ab5df36ea2e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:53 +0000
Subject: [PATCH 15/38] fix: refuse inverted table switches and do not trust
 their size on reading

---
 src/insn.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/insn.rs b/src/insn.rs
index e7b35f3..d9e4cba 100644
--- a/src/insn.rs
+++ b/src/insn.rs
@@ -2,7 +2,7 @@
 //!
 //! Used for translating raw code to useful code.
 
-use crate::{helper as h, ReadWrite, Result};
+use crate::{helper as h, Error, ReadWrite, Result};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, ReadWrite)]
 pub(crate) struct SwitchEntry(pub i32, pub i32);
@@ -39,9 +39,14 @@ impl ReadWrite for TableSwitch {
     fn read_from<T: std::io::Read>(reader: &mut T) -> Result<Self> {
         let low = i32::read_from(reader)?;
         let high = i32::read_from(reader)?;
-        let len = (high - low + 1) as usize;
-        let mut offsets = Vec::with_capacity(len);
-        for _ in 0..len {
+        if high < low {
+            return Err(Error::Invalid(
+                "table switch",
+                format!("{low} to {high}").into(),
+            ));
+        }
+        let mut offsets = Vec::new();
+        for _ in low..=high {
             offsets.push(i32::read_from(reader)?);
         }
         Ok(Self { low, high, offsets })
-- 
2.43.0


From e9df53b0701b40fa72002fcec00dc028384b1443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:56 +0000
Subject: [PATCH 16/38] fix: do not allocate the declared code length before
 reading it

---
 src/code.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 6f987a7..48b3018 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -77,8 +77,11 @@ impl ConstantPoolReadWrite for Code {
         let max_stack = u16::read_from(reader)?;
         let max_locals = u16::read_from(reader)?;
         // Read code to a buffer so we are able to seek.
-        let mut code = vec![0; u32::read_from(reader)? as usize];
-        reader.read_exact(&mut code)?;
+        let code_len = u32::read_from(reader)? as u64;
+        let mut code = Vec::new();
+        if reader.take(code_len).read_to_end(&mut code)? as u64 != code_len {
+            return Err(unexpected_end());
+        }
         let mut labeler = Labeler {
             inner: cp,
             labels: HashMap::new(),
-- 
2.43.0


From 31ae975ff3f22b855e94bb01807f1b219fc61c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:24 +0000
Subject: [PATCH 17/38] fix: do not allocate the declared length of an
 attribute before reading it

---
 coffer_macros/src/derive.rs | 6 ++----
 src/code.rs                 | 7 ++-----
 src/helper.rs               | 9 +++++++++
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9854e6f..a3f3f2b 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -231,8 +231,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
             }, quote! {
                 #ident => {
                     let len = u32::read_from(#reader)?;
-                    let mut vec = vec![0; len as usize];
-                    #reader.read_exact(&mut vec)?;
+                    let vec = crate::helper::read_bytes(#reader, len)?;
                     let mut __inner_reader: &[u8] = vec.as_ref();
                     let #inner_reader = &mut __inner_reader;
                     let ret = #construct;
@@ -255,8 +254,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                         #read_match
                         _ => {
                             let byte_size = u32::read_from(#reader)?;
-                            let mut bytes = vec![0; byte_size as usize];
-                            #reader.read_exact(&mut bytes)?;
+                            let bytes = crate::helper::read_bytes(#reader, byte_size)?;
                             let raw_attr = crate::prelude::RawAttribute::__new(attribute_name, bytes);
                             Ok(Self::#raw_variant_name(raw_attr))
                         }
diff --git a/src/code.rs b/src/code.rs
index 48b3018..c8c3ee9 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -77,11 +77,8 @@ impl ConstantPoolReadWrite for Code {
         let max_stack = u16::read_from(reader)?;
         let max_locals = u16::read_from(reader)?;
         // Read code to a buffer so we are able to seek.
-        let code_len = u32::read_from(reader)? as u64;
-        let mut code = Vec::new();
-        if reader.take(code_len).read_to_end(&mut code)? as u64 != code_len {
-            return Err(unexpected_end());
-        }
+        let code_len = u32::read_from(reader)?;
+        let code = crate::helper::read_bytes(reader, code_len)?;
         let mut labeler = Labeler {
             inner: cp,
             labels: HashMap::new(),
diff --git a/src/helper.rs b/src/helper.rs
index 67a7814..0e60b95 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -10,6 +10,15 @@ use wtf_8::Wtf8Str;
 use crate::rw::ReadWrite;
 use crate::{ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter, Error};
 
+/// Reads exactly `len` bytes, without trusting `len` for how much to allocate.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> crate::Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    if reader.take(len as u64).read_to_end(&mut bytes)? != len as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 pub trait ConstantPoolReadWriteAs<T> {
     fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> crate::Result<T>;
     fn write_to<C: ConstantPoolWriter, W: Write>(
-- 
2.43.0


From 53bd85cd3a312ef47b7e9956151adb97f2e001a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:36 +0000
Subject: [PATCH 18/38] fix: do not overflow on a wide entry at the end of a
 full constant pool

---
 src/cp.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index fe44d63..8223571 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -156,12 +156,12 @@ impl Default for MapCp {
 impl ReadWrite for MapCp {
     fn read_from<T: Read>(reader: &mut T) -> Result<Self> {
         let mut cp = MapCp::new();
-        let count = u16::read_from(reader)?;
+        let count = u16::read_from(reader)? as u32;
         let mut i = 1;
         while i < count {
             let entry = RawConstantEntry::read_from(reader)?;
-            let idx = i;
-            i += entry.size();
+            let idx = i as u16;
+            i += entry.size() as u32;
             cp.entries.insert(idx, entry);
         }
         Ok(cp)
-- 
2.43.0


From 58135bee753d731dea5c99c80d06b3c46af7709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:39 +0000
Subject: [PATCH 19/38] fix: refuse to write constant pools with too many
 entries

---
 src/cp.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index 8223571..2080549 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -3,6 +3,7 @@
 use std::borrow::Cow;
 use std::collections::hash_map::Entry;
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::hash::Hash;
 use std::sync::Arc;
 
@@ -113,7 +114,9 @@ pub struct VecCp {
     entries: Vec<RawConstantEntry>,
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
-    len: u16,
+    ///
+    /// This can be more than what fits in a class file, which is reported on writing.
+    len: u32,
     pub(crate) bsm: Vec<BootstrapMethod>,
 }
 impl VecCp {
@@ -206,7 +209,9 @@ impl ReadWrite for VecCp {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        self.len.write_to(writer)?;
+        u16::try_from(self.len)
+            .map_err(|_| Error::Invalid("constant pool size", self.len.to_string().into()))?
+            .write_to(writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
         }
@@ -219,8 +224,8 @@ impl ConstantPoolWriter for VecCp {
         match self.cache.entry(value.clone()) {
             Entry::Occupied(e) => *e.get(),
             Entry::Vacant(e) => {
-                let idx = self.len;
-                self.len += value.size();
+                let idx = self.len as u16;
+                self.len += value.size() as u32;
                 e.insert(idx);
                 self.entries.push(value);
                 idx
-- 
2.43.0


From da9e8af455e3cd9004f8d33f0bbe96422fc14518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:42 +0000
Subject: [PATCH 20/38] fix: count the BootstrapMethods attribute and number
 nested bootstrap methods correctly

---
 src/clazz.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 9cc40a1..a3cd1c2 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -100,33 +100,38 @@ impl ReadWrite for Class {
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        (self.attributes.len() as u16).write_to(&mut buf)?;
+        let mut attributes = 0u16;
+        let mut attributes_buf = vec![];
+        let mut has_bsm = false;
         for a in &self.attributes {
             match a {
-                ClassAttribute::BootstrapMethods(_) => {}
-                _ => a.write_to(&mut cp, &mut buf)?,
+                ClassAttribute::BootstrapMethods(_) => has_bsm = true,
+                _ => {
+                    attributes += 1;
+                    a.write_to(&mut cp, &mut attributes_buf)?
+                }
             }
         }
-        if !cp.bsm.is_empty() {
-            let mut i: u16 = 0;
+        if has_bsm || !cp.bsm.is_empty() {
+            let mut i = 0;
             let mut buf2 = vec![];
-            while !cp.bsm.is_empty() {
-                let v = cp.bsm;
-                cp.bsm = vec![];
-                i += v.len() as u16;
-                for bsm in v {
-                    bsm.write_to(&mut cp, &mut buf2)?;
-                }
+            // The arguments of a bootstrap method may add bootstrap methods to the end.
+            while i < cp.bsm.len() {
+                cp.bsm[i].clone().write_to(&mut cp, &mut buf2)?;
+                i += 1;
             }
+            attributes += 1;
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
                 &mut cp,
-                &mut buf
+                &mut attributes_buf
             )?;
-            (buf2.len() as u32 + 2).write_to(&mut buf)?;
-            i.write_to(&mut buf)?;
-            buf.write_all(&buf2)?;
+            (buf2.len() as u32 + 2).write_to(&mut attributes_buf)?;
+            (i as u16).write_to(&mut attributes_buf)?;
+            attributes_buf.write_all(&buf2)?;
         }
+        attributes.write_to(&mut buf)?;
+        buf.write_all(&attributes_buf)?;
         cp.write_to(writer)?;
         writer.write_all(&buf)?;
         Ok(())
-- 
2.43.0


From c6ec145e2f6eae0290b7d6c9c7f67ed10b60b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:45 +0000
Subject: [PATCH 21/38] fix: refuse dynamic constants in classes without
 bootstrap methods

---
 src/clazz.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index a3cd1c2..660c474 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -47,12 +47,12 @@ impl ReadWrite for Class {
                 let version = JavaVersion::read_from(reader)?;
                 let mut cp = MapCp::read_from(reader)?;
                 let c = ClassWrapper::read_from(&mut cp, reader)?;
-                for attr in &c.attributes {
-                    if let ClassAttribute::BootstrapMethods(b) = attr {
-                        cp.bootstrap_methods(b)?;
-                        break;
-                    }
-                }
+                // Without the attribute, every reference to a bootstrap method is invalid.
+                let bsms = c.attributes.iter().find_map(|attr| match attr {
+                    ClassAttribute::BootstrapMethods(b) => Some(b.as_slice()),
+                    _ => None,
+                });
+                cp.bootstrap_methods(bsms.unwrap_or(&[]))?;
                 Ok(Class {
                     version,
                     access: c.access,
-- 
2.43.0


From 77525e194ec7e6b94c9be4f73e4b21c999747cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:49 +0000
Subject: [PATCH 22/38] fix: share equal bootstrap methods instead of appending
 a copy on every write

---
 src/clazz.rs |  2 +-
 src/cp.rs    | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 660c474..8be72e6 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -76,7 +76,7 @@ impl ReadWrite for Class {
             }
         }
         let mut cp = VecCp::new();
-        cp.bsm = bsm;
+        cp.set_bsms(bsm);
 
         JVM_MAGIC.write_to(writer)?;
         self.version.write_to(writer)?;
diff --git a/src/cp.rs b/src/cp.rs
index 2080549..7c8471f 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -118,6 +118,7 @@ pub struct VecCp {
     /// This can be more than what fits in a class file, which is reported on writing.
     len: u32,
     pub(crate) bsm: Vec<BootstrapMethod>,
+    bsm_cache: HashMap<BootstrapMethod, u16>,
 }
 impl VecCp {
     /// Creates an empty constant pool.
@@ -128,8 +129,17 @@ impl VecCp {
             cache: HashMap::new(),
             len: 1,
             bsm: vec![],
+            bsm_cache: HashMap::new(),
         }
     }
+
+    /// Sets the bootstrap methods that are already in the table.
+    pub(crate) fn set_bsms(&mut self, bsm: Vec<BootstrapMethod>) {
+        for (i, b) in bsm.iter().enumerate() {
+            self.bsm_cache.entry(b.clone()).or_insert(i as u16);
+        }
+        self.bsm = bsm;
+    }
 }
 
 impl Default for VecCp {
@@ -234,8 +244,13 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
-        let ret = self.bsm.len() as u16;
-        self.bsm.push(bsm);
-        ret
+        match self.bsm_cache.entry(bsm) {
+            Entry::Occupied(e) => *e.get(),
+            Entry::Vacant(e) => {
+                let ret = self.bsm.len() as u16;
+                self.bsm.push(e.key().clone());
+                *e.insert(ret)
+            }
+        }
     }
 }
-- 
2.43.0


From eb6bd689d4157d3f0cbe511f30a35f980cdfcc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:56 +0000
Subject: [PATCH 23/38] fix: refuse bootstrap methods that are arguments of
 themselves

---
 src/cp.rs | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index 7c8471f..6f40f28 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -10,7 +10,7 @@ use std::sync::Arc;
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
-use crate::prelude::{BootstrapMethod, Read, Result, Write};
+use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -185,6 +185,59 @@ impl ReadWrite for MapCp {
     }
 }
 
+impl MapCp {
+    /// Dynamic constants can be arguments of bootstrap methods, whose values own them. This refuses
+    /// the ones that cannot be owned because they lead back to themselves or nest without measure.
+    fn check_nesting(&self, bsms: &[BootstrapMethod]) -> Result<()> {
+        const MAX_DEPTH: usize = 256;
+        const MAX_SIZE: usize = 65535;
+        type Cell = OnceCell<BootstrapMethod>;
+
+        /// returns how deep and how large the bootstrap method is.
+        fn measure(
+            idx: u16,
+            depth: usize,
+            bsms: &[BootstrapMethod],
+            cells: &HashMap<*const Cell, u16>,
+            known: &mut HashMap<u16, (usize, usize)>,
+        ) -> Result<(usize, usize)> {
+            let (mut height, mut size) = (0, 1);
+            if let Some(&known) = known.get(&idx) {
+                (height, size) = known;
+            } else if depth <= MAX_DEPTH {
+                for arg in bsms.get(idx as usize).map_or(&[][..], |b| &b.arguments) {
+                    if let OrDynamic::Dynamic(d) = arg {
+                        if let Some(&nested) = cells.get(&Arc::as_ptr(&d.bsm)) {
+                            let (h, s) = measure(nested, depth + 1, bsms, cells, known)?;
+                            height = height.max(h + 1);
+                            size += s;
+                        }
+                    }
+                }
+                known.insert(idx, (height, size));
+            }
+            if depth + height > MAX_DEPTH || size > MAX_SIZE {
+                return Err(Error::Invalid(
+                    "bootstrap method (nested too deep)",
+                    idx.to_string().into(),
+                ));
+            }
+            Ok((height, size))
+        }
+
+        let cells = self
+            .refs
+            .iter()
+            .flat_map(|(i, v)| v.iter().map(move |c| (Arc::as_ptr(c), *i)))
+            .collect();
+        let mut known = HashMap::new();
+        for i in 0..bsms.len() {
+            measure(i as u16, 0, bsms, &cells, &mut known)?;
+        }
+        Ok(())
+    }
+}
+
 impl ConstantPoolReader for MapCp {
     fn read_raw(&mut self, idx: u16) -> Option<RawConstantEntry> {
         self.entries.get(&idx).cloned()
@@ -195,6 +248,7 @@ impl ConstantPoolReader for MapCp {
     }
 
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
+        self.check_nesting(bsms)?;
         for (i, b) in bsms.iter().enumerate() {
             if let Entry::Occupied(bsm) = self.refs.entry(i as _) {
                 for reg in bsm.remove() {
-- 
2.43.0


From c7a6026e89a8edd35daea14c09cfc6186ab65cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 24/38] fix: refuse to write strings and tables that do not fit
 their length

---
 src/annotation/mod.rs |  4 ++--
 src/clazz.rs          | 12 ++++++------
 src/code.rs           |  8 ++++----
 src/dynamic.rs        |  2 +-
 src/helper.rs         | 10 ++++++++++
 src/rw.rs             |  2 +-
 6 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 247600a..a5cdccb 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -200,7 +200,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
-                (v.len() as u16).write_to(writer)?;
+                h::len16(v.len())?.write_to(writer)?;
                 for e in v {
                     e.write_to(cp, writer)?;
                 }
@@ -239,7 +239,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = self.len() as u16;
+        let size = h::len16(self.len())?;
         size.write_to(writer)?;
         for (k, e) in self {
             write_to!(k, cp, writer)?;
diff --git a/src/clazz.rs b/src/clazz.rs
index 8be72e6..4b44004 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -88,19 +88,19 @@ impl ReadWrite for Class {
             .as_ref()
             .map_or(0, |n| cp.insert_class(n.clone()))
             .write_to(&mut buf)?;
-        (self.interfaces.len() as u16).write_to(&mut buf)?;
+        h::len16(self.interfaces.len())?.write_to(&mut buf)?;
         for i in &self.interfaces {
             cp.insert_class(i.clone()).write_to(&mut buf)?;
         }
-        (self.fields.len() as u16).write_to(&mut buf)?;
+        h::len16(self.fields.len())?.write_to(&mut buf)?;
         for f in &self.fields {
             f.write_to(&mut cp, &mut buf)?;
         }
-        (self.methods.len() as u16).write_to(&mut buf)?;
+        h::len16(self.methods.len())?.write_to(&mut buf)?;
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        let mut attributes = 0u16;
+        let mut attributes = 0;
         let mut attributes_buf = vec![];
         let mut has_bsm = false;
         for a in &self.attributes {
@@ -127,10 +127,10 @@ impl ReadWrite for Class {
                 &mut attributes_buf
             )?;
             (buf2.len() as u32 + 2).write_to(&mut attributes_buf)?;
-            (i as u16).write_to(&mut attributes_buf)?;
+            h::len16(i)?.write_to(&mut attributes_buf)?;
             attributes_buf.write_all(&buf2)?;
         }
-        attributes.write_to(&mut buf)?;
+        h::len16(attributes)?.write_to(&mut buf)?;
         buf.write_all(&attributes_buf)?;
         cp.write_to(writer)?;
         writer.write_all(&buf)?;
diff --git a/src/code.rs b/src/code.rs
index c8c3ee9..62d1238 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -531,7 +531,7 @@ impl ConstantPoolReadWrite for Code {
             }
         }
 
-        (self.catches.len() as u16).write_to(writer)?;
+        crate::helper::len16(self.catches.len())?.write_to(writer)?;
         let mut labeler = Labeler {
             indices: &actual_indices,
             labels: &labels,
@@ -636,7 +636,7 @@ impl ConstantPoolReadWrite for Code {
                 label.0.to_string().into(),
             ));
         }
-        (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
+        crate::helper::len16(self.attrs.len() + extra_attrs)?.write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
     }
@@ -776,11 +776,11 @@ impl ConstantPoolReadWrite for RawFrame {
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
                 off.write_to(writer)?;
-                (locals.len() as u16).write_to(writer)?;
+                crate::helper::len16(locals.len())?.write_to(writer)?;
                 for local in locals {
                     local.write_to(cp, writer)?;
                 }
-                (stack.len() as u16).write_to(writer)?;
+                crate::helper::len16(stack.len())?.write_to(writer)?;
                 for s in stack {
                     s.write_to(cp, writer)?;
                 }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 3a64676..dbe6046 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -37,7 +37,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<(), Error> {
         cp.insert_method_handle(self.handle.clone())
             .write_to(writer)?;
-        (self.arguments.len() as u16).write_to(writer)?;
+        h::len16(self.arguments.len())?.write_to(writer)?;
         for arg in self.arguments.iter().cloned() {
             cp.insert_ordynamic(arg, ConstantPoolWriter::insert_constant)
                 .write_to(writer)?;
diff --git a/src/helper.rs b/src/helper.rs
index 0e60b95..525584d 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -10,6 +10,16 @@ use wtf_8::Wtf8Str;
 use crate::rw::ReadWrite;
 use crate::{ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter, Error};
 
+/// The number of entries of a table, which must fit in its `u16` counter.
+pub(crate) fn len16(len: usize) -> crate::Result<u16> {
+    u16::try_from(len).map_err(|_| {
+        Error::Invalid(
+            "length",
+            format!("{len} does not fit in a `u16`").into(),
+        )
+    })
+}
+
 /// Reads exactly `len` bytes, without trusting `len` for how much to allocate.
 pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> crate::Result<Vec<u8>> {
     let mut bytes = Vec::new();
diff --git a/src/rw.rs b/src/rw.rs
index 0f4f81c..fb4dd47 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -473,7 +473,7 @@ impl ReadWrite for Wtf8String {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let string = crate::mod_utf8::string_to_modified_utf8(self);
-        (string.len() as u16).write_to(writer)?;
+        crate::helper::len16(string.len())?.write_to(writer)?;
         writer.write_all(&string)?;
         Ok(())
     }
-- 
2.43.0


From c57ff065f05aee4c067c9413015f6876e705e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:07 +0000
Subject: [PATCH 25/38] fix: keep unpaired surrogates in descriptors on writing

---
 src/annotation/mod.rs | 2 +-
 src/attr.rs           | 2 +-
 src/code/structure.rs | 6 ++++--
 src/rw.rs             | 6 +++---
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index a5cdccb..7e158ed 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -188,7 +188,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
                 write_to!(
                     &n.as_ref().map_or_else(
                         || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.to_string().into())
+                        |t| Cow::Owned(t.into())
                     ),
                     cp,
                     writer
diff --git a/src/attr.rs b/src/attr.rs
index 5acc566..e700166 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -55,7 +55,7 @@ impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)> {
         writer: &mut W,
     ) -> Result<(), Error> {
         if let Some((n, t)) = self {
-            cp.insert_nameandtype(n.clone(), Cow::Owned(t.to_string().into()))
+            cp.insert_nameandtype(n.clone(), Cow::Owned(t.into()))
                 .write_to(writer)
         } else {
             0u16.write_to(writer)
diff --git a/src/code/structure.rs b/src/code/structure.rs
index d2d62ff..154130f 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -1,5 +1,5 @@
 use indexmap::map::IndexMap;
-use wtf_8::Wtf8Str;
+use wtf_8::{Wtf8Str, Wtf8String};
 
 use crate::annotation::CodeTypeAnnotation;
 use crate::prelude::*;
@@ -252,7 +252,9 @@ impl From<ClassType> for Cow<'static, Wtf8Str> {
         match t {
             ClassType::Object(s) => s,
             ClassType::Array(dim, ty) => {
-                Cow::Owned(format!("{}{}", "[".repeat(dim as usize), ty).into())
+                let mut s = Wtf8String::from("[".repeat(dim as usize));
+                write_type(&ty, &mut s);
+                Cow::Owned(s)
             }
         }
     }
diff --git a/src/rw.rs b/src/rw.rs
index fb4dd47..6c54b84 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -39,7 +39,7 @@ pub trait ConstantPoolWriter {
             Constant::Class(s) => self.insert_indirect_str(7, s),
             Constant::Member(mem) => self.insert_member(mem),
             Constant::MethodType(t) => {
-                let desc = self.insert_wtf8(Cow::Owned(t.to_string().into()));
+                let desc = self.insert_wtf8(Cow::Owned((&t).into()));
                 self.insert_raw(RawConstantEntry::MethodType(desc))
             }
             Constant::MethodHandle(h) => {
@@ -88,7 +88,7 @@ pub trait ConstantPoolWriter {
             RawConstantEntry::Dynamic
         };
         let name_and_type =
-            self.insert_nameandtype(d.name, Cow::Owned(d.descriptor.to_string().into()));
+            self.insert_nameandtype(d.name, Cow::Owned((&d.descriptor).into()));
         self.insert_raw(e(bsm, name_and_type))
     }
     /// insert an indirect string such as String / Module / Package entry, used by the procedural macro.
@@ -143,7 +143,7 @@ pub trait ConstantPoolWriter {
             _ => RawConstantEntry::Field,
         }(
             self.insert_class(mem.owner),
-            self.insert_nameandtype(mem.name, Cow::Owned(mem.descriptor.to_string().into())),
+            self.insert_nameandtype(mem.name, Cow::Owned((&mem.descriptor).into())),
         );
         self.insert_raw(entry)
     }
-- 
2.43.0


From 9c2cc6b7ee6b0a5a2c1d8badbb3fae9132d3ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:12 +0000
Subject: [PATCH 26/38] fix: limit the nesting of annotation values on reading

---
 src/annotation/mod.rs | 53 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 7e158ed..28d2454 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -68,8 +68,18 @@ pub enum AnnotationValue {
     Array(Vec<AnnotationValue>),
 }
 
-impl ConstantPoolReadWrite for AnnotationValue {
-    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+/// How deep annotations and arrays may be nested in an annotation value.
+const MAX_DEPTH: usize = 256;
+
+impl AnnotationValue {
+    fn read_nested<C: ConstantPoolReader, R: Read>(
+        cp: &mut C,
+        reader: &mut R,
+        depth: usize,
+    ) -> Result<Self> {
+        if depth > MAX_DEPTH {
+            return Err(Error::Invalid("annotation value", "nested too deep".into()));
+        }
         let tag = u8::read_from(reader)? as char;
         Ok(match tag {
             'B' => AnnotationValue::Byte({
@@ -120,18 +130,27 @@ impl ConstantPoolReadWrite for AnnotationValue {
                     Some(parse_type(&str)?)
                 })
             }
-            '@' => AnnotationValue::Annotation(Annotation::read_from(cp, reader)?),
+            '@' => AnnotationValue::Annotation(Annotation {
+                annotation_type: read_from!(cp, reader)?,
+                element_values: read_pairs(cp, reader, depth + 1)?,
+            }),
             '[' => {
                 let num = u16::read_from(reader)?;
-                let mut values = Vec::with_capacity(num as usize);
+                let mut values = Vec::new();
                 for _ in 0..num {
-                    values.push(AnnotationValue::read_from(cp, reader)?)
+                    values.push(AnnotationValue::read_nested(cp, reader, depth + 1)?)
                 }
                 AnnotationValue::Array(values)
             }
             _ => return Err(Error::Invalid("Enum value type", tag.to_string().into())),
         })
     }
+}
+
+impl ConstantPoolReadWrite for AnnotationValue {
+    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+        AnnotationValue::read_nested(cp, reader, 0)
+    }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> {
         fn cp_int<C: ConstantPoolWriter, W: Write, I: Into<i32>>(
@@ -219,19 +238,27 @@ pub struct Annotation {
     pub element_values: HashMap<Cow<'static, Wtf8Str>, AnnotationValue>,
 }
 
+fn read_pairs<C: ConstantPoolReader, R: Read>(
+    cp: &mut C,
+    reader: &mut R,
+    depth: usize,
+) -> Result<HashMap<Cow<'static, Wtf8Str>, AnnotationValue>> {
+    let pairs = u16::read_from(reader)?;
+    let mut element_values = HashMap::new();
+    for _ in 0..pairs {
+        let name = read_from!(cp, reader)?;
+        let value = AnnotationValue::read_nested(cp, reader, depth)?;
+        element_values.insert(name, value);
+    }
+    Ok(element_values)
+}
+
 impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
     fn read_from<C: ConstantPoolReader, R: Read>(
         cp: &mut C,
         reader: &mut R,
     ) -> Result<Self, Error> {
-        let pairs = u16::read_from(reader)?;
-        let mut element_values = HashMap::with_capacity(pairs as usize);
-        for _ in 0..pairs {
-            let name = read_from!(cp, reader)?;
-            let value = AnnotationValue::read_from(cp, reader)?;
-            element_values.insert(name, value);
-        }
-        Ok(element_values)
+        read_pairs(cp, reader, 0)
     }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(
-- 
2.43.0


From c67aca5fb1b4f9da8708b8c26b1248502b1c07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:10 +0000
Subject: [PATCH 27/38] fix: parse all bounds of a type parameter in signatures

---
 src/signature.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 2eb2393..b93a575 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -366,21 +366,18 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
 
 fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
     // i = "A::Ljava/lang/String;"
-    let mut chars = i.chars();
-    let name = chars
-        .by_ref()
-        .take_while(|&x| x != ':')
-        .collect::<String>()
-        .into();
-    let (mut i, class_bound) = if let Some('T' | '[' | 'L') = chars.as_str().chars().next() {
-        let (newi, ref_ty_sig) = ref_type_sig(chars.as_str())?;
+    let colon = i.find(':').ok_or_else(unexpected_end)?;
+    let name = i[..colon].to_string().into();
+    let i = &i[colon + 1..];
+    let (mut i, class_bound) = if let Some('T' | '[' | 'L') = i.chars().next() {
+        let (newi, ref_ty_sig) = ref_type_sig(i)?;
         (newi, Some(ref_ty_sig))
     } else {
-        (chars.as_str(), None)
+        (i, None)
     };
     let mut interface_bounds = vec![];
-    while let Some(':') = chars.next() {
-        let (new_i, bound) = ref_type_sig(chars.as_str())?;
+    while let Some(':') = i.chars().next() {
+        let (new_i, bound) = ref_type_sig(&i[1..])?;
         interface_bounds.push(bound);
         i = new_i;
     }
-- 
2.43.0


From 3c5825e4db1d9b3fa5e340bd6ae5eaa7d1e7e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:13 +0000
Subject: [PATCH 28/38] fix: refuse signatures with trailing characters

---
 src/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index b93a575..6d4b24b 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -472,7 +472,10 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    $fn(s).map(|(_, r)| r)
+                    match $fn(s)? {
+                        ("", r) => Ok(r),
+                        (rest, _) => Err(invalid("signature (trailing characters)", rest)),
+                    }
                 }
             }
         )*
-- 
2.43.0


From 1c347181544f4fb78ae57e17a2a0d18ffe52ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:16 +0000
Subject: [PATCH 29/38] fix: print thrown type parameters as type variables

---
 src/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 6d4b24b..666af9a 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -626,7 +626,7 @@ impl Display for Throws {
         f.write_char('^')?;
         match self {
             Throws::TypeParameter(p) => {
-                write!(f, "L{};", p)
+                write!(f, "T{};", p)
             }
             Throws::Class(c) => c.fmt(f),
         }
-- 
2.43.0


From 9394da230ae40465dc31ed3597171124d0be76ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:19 +0000
Subject: [PATCH 30/38] fix: refuse signatures with more than 255 array
 dimensions

---
 src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 666af9a..d9fae2f 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -177,7 +177,9 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             let mut c = i.chars();
             while let Some('[') = c.as_str().chars().next() {
                 c.next();
-                dim += 1;
+                dim = dim
+                    .checked_add(1)
+                    .ok_or_else(|| invalid("signature", "more than 255 dimensions"))?;
             }
             let (i, t) = type_sig(c.as_str())?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
-- 
2.43.0


From d752fcef77656a40dfd6525ac021bb4a6862ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:35 +0000
Subject: [PATCH 31/38] fix: refuse signatures with unpaired surrogates instead
 of replacing them

---
 src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index d9fae2f..3221535 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -490,7 +490,9 @@ macro_rules! cprw_impls {
             impl ConstantPoolReadWrite for $ty {
                 fn read_from<C: crate::ConstantPoolReader, R: std::io::Read>(cp: &mut C, reader: &mut R) -> crate::Result<Self> {
                     let s = Cow::<'static, wtf_8::Wtf8Str>::read_from(cp, reader)?;
-                    FromStr::from_str(&s.to_string_lossy())
+                    // names in signatures are `str`s, so unpaired surrogates cannot be kept.
+                    let s = s.as_str().ok_or_else(|| invalid("signature", s.to_string_lossy()))?;
+                    FromStr::from_str(s)
                 }
 
                 fn write_to<C: crate::ConstantPoolWriter, W: std::io::Write>(&self, cp: &mut C, writer: &mut W) -> crate::Result<()> {
-- 
2.43.0


From 635d1531f7af264325e509337ff27624d6bb58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:41 +0000
Subject: [PATCH 32/38] fix: limit the nesting of type arguments in signatures

---
 src/signature.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/signature.rs b/src/signature.rs
index 3221535..7c56ec3 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -326,9 +326,36 @@ fn type_arg(i: &str) -> IResult<'_, TypeArgument> {
     })
 }
 
+/// Counts how deep type arguments are nested on the current thread, to not exhaust the stack.
+struct Nesting;
+
+impl Nesting {
+    const MAX_DEPTH: usize = 256;
+
+    fn enter() -> Result<Self> {
+        let nesting = Nesting;
+        let depth = NESTING.with(|n| n.replace(n.get() + 1));
+        if depth >= Self::MAX_DEPTH {
+            return Err(invalid("signature", "type arguments are nested too deep"));
+        }
+        Ok(nesting)
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|n| n.set(n.get() - 1));
+    }
+}
+
+thread_local! {
+    static NESTING: std::cell::Cell<usize> = std::cell::Cell::new(0);
+}
+
 fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
     let mut args = vec![];
     if i.as_bytes().first() == Some(&b'<') {
+        let _nesting = Nesting::enter()?;
         i = &i[1..];
         while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
             let res = type_arg(i)?;
-- 
2.43.0


From 4dd9b881c8ed025f8311ae968f9b25174cb3fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:12 +0000
Subject: [PATCH 33/38] fix: validate the last byte of unpaired high surrogates
 in WTF-8

---
 wtf8/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index 60c9ef8..fbc6f83 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1264,7 +1264,9 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
                         is_high_surrogate = true;
-                        next!();
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         continue;
                     }
                     0xB0..=0xBF => {
-- 
2.43.0


From 63bb2299492af824479f333090888623685aa650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:16 +0000
Subject: [PATCH 34/38] fix: refuse surrogate pairs with invalid bytes in
 modified UTF-8

---
 src/mod_utf8.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_utf8.rs b/src/mod_utf8.rs
index 2367ec1..96f9ecb 100644
--- a/src/mod_utf8.rs
+++ b/src/mod_utf8.rs
@@ -95,10 +95,10 @@ pub fn modified_utf8_to_string(buf: &[u8]) -> Result<Wtf8String, MutfError> {
                 0xED => {
                     if let (
                         Some(n @ 0xA0..=0xAF),
-                        Some(n1),
+                        Some(n1 @ 0x80..=0xBF),
                         Some(0xED),
                         Some(n3 @ 0xB0..=0xBF),
-                        Some(n4),
+                        Some(n4 @ 0x80..=0xBF),
                     ) = (
                         buf.get(index + 1),
                         buf.get(index + 2),
-- 
2.43.0


From 964909ba2d332436737afeded7cd3ce967852d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:20 +0000
Subject: [PATCH 35/38] fix: use the specified tags for long and double
 verification types

---
 src/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index 62d1238..5f3105c 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -658,8 +658,8 @@ pub enum VerificationType {
     Top,
     Int,
     Float,
-    Long,
     Double,
+    Long,
     Null,
     UninitializedThis,
     Object(#[coffer(as = "h::Class")] Cow<'static, Wtf8Str>),
-- 
2.43.0


From 72bfab6b0ade5c2476c24e380b6602840eb108b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:23 +0000
Subject: [PATCH 36/38] fix: refuse append frames without locals

---
 src/code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 5f3105c..08cdc10 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -763,7 +763,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 off.write_to(writer)?;
             }
             RawFrame::Chop(_, c) => return Err(Error::Invalid("Chop value", c.to_string().into())),
-            RawFrame::Append(off, locals) if locals.len() <= 3 => {
+            RawFrame::Append(off, locals) if (1..=3).contains(&locals.len()) => {
                 (locals.len() as u8 + 251).write_to(writer)?;
                 off.write_to(writer)?;
                 for local in locals {
@@ -771,7 +771,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 }
             }
             RawFrame::Append(_, _) => {
-                return Err(Error::Invalid("Append", "locals length > 3".into()))
+                return Err(Error::Invalid("Append", "locals length not in 1..=3".into()))
             }
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
-- 
2.43.0


From 650b49193a0571faa200603b153ff8f9aa959e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:27 +0000
Subject: [PATCH 37/38] fix: write the tag and length of borrowed UTF-8
 constants

---
 src/cp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index 6f40f28..d241fc2 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -26,7 +26,9 @@ impl<'a> ReadWrite for StrRef<'a> {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        writer.write_all(&mod_utf8::string_to_modified_utf8(self.0))?;
+        let string = mod_utf8::string_to_modified_utf8(self.0);
+        crate::helper::len16(string.len())?.write_to(writer)?;
+        writer.write_all(&string)?;
         Ok(())
     }
 }
@@ -34,6 +36,7 @@ impl<'a> ReadWrite for StrRef<'a> {
 #[derive(ReadWrite, Debug, Clone, Copy)]
 #[coffer(tag_type(u8))]
 pub enum ConstEntryRef<'a> {
+    #[coffer(tag = 1)]
     UTF8(StrRef<'a>),
     #[coffer(tag = 3)]
     Int(i32),
-- 
2.43.0


From 9bda13702c963492a17ff62d84de402390dee771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:20 +0000
Subject: [PATCH 38/38] fix: refuse local variables with neither descriptor nor
 signature

---
 src/code.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/code.rs b/src/code.rs
index 08cdc10..7ff7505 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -571,6 +571,12 @@ impl ConstantPoolReadWrite for Code {
                     let mut ty: Vec<LocalVarType> = vec![];
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
+                        if lc.descriptor.is_none() && lc.signature.is_none() {
+                            return Err(Error::Invalid(
+                                "local variable",
+                                "neither descriptor nor signature present".into(),
+                            ));
+                        }
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start);
                             let len = range_length(start, labeler.label(&lc.end))?;
-- 
2.43.0

