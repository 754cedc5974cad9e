From ac1961aba7424643b58de567c4343704ebd619ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 1/7] fix: reject R1CS files whose announced sizes exceed the
 file or section

A section size or an item count larger than what is left of the file made the reader seek backwards forever,
read into the next section, or allocate up to terabytes.
---
 packages/zkenc-cli/src/r1cs.rs | 42 +++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index f4f739b..b2be419 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -3,7 +3,7 @@ use crate::serializable::{
 };
 use anyhow::{bail, Context, Result};
 use std::fs::File;
-use std::io::{BufReader, Read, Seek};
+use std::io::{BufReader, Read, Seek, Take};
 use std::path::Path;
 
 /// R1CS file parser
@@ -96,6 +96,7 @@ impl R1csFile {
     pub fn from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
         let file = File::open(path.as_ref())
             .with_context(|| format!("Failed to open R1CS file: {:?}", path.as_ref()))?;
+        let file_size = file.metadata()?.len();
         let mut reader = BufReader::new(file);
 
         // Parse magic number "r1cs"
@@ -120,6 +121,9 @@ impl R1csFile {
             let section_type = read_u32(&mut reader)?;
             let section_size = read_u64(&mut reader)?;
             let section_pos = reader.stream_position()?;
+            if section_size > file_size.saturating_sub(section_pos) {
+                bail!("Section {} exceeds the file size", section_type);
+            }
             sections.push((section_type, section_size, section_pos));
             reader.seek_relative(section_size as i64)?;
         }
@@ -131,7 +135,7 @@ impl R1csFile {
                 .find(|(t, _, _)| *t == 0x01)
                 .context("Header section not found")?;
             reader.seek(std::io::SeekFrom::Start(header_section.2))?;
-            Self::parse_header(&mut reader)?
+            Self::parse_header(&mut reader.by_ref().take(header_section.1))?
         };
 
         // Parse constraints section
@@ -142,7 +146,7 @@ impl R1csFile {
                 .context("Constraints section not found")?;
             reader.seek(std::io::SeekFrom::Start(constraints_section.2))?;
             Self::parse_constraints(
-                &mut reader,
+                &mut reader.by_ref().take(constraints_section.1),
                 header.n_constraints as usize,
                 header.field_size as usize,
             )?
@@ -152,7 +156,10 @@ impl R1csFile {
         let wire2label =
             if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {
                 reader.seek(std::io::SeekFrom::Start(wire2label_section.2))?;
-                Self::parse_wire2label(&mut reader, header.n_wires as usize)?
+                Self::parse_wire2label(
+                    &mut reader.by_ref().take(wire2label_section.1),
+                    header.n_wires as usize,
+                )?
             } else {
                 // Generate default wire2label if not present
                 (0..header.n_wires as u64).collect()
@@ -172,8 +179,9 @@ impl R1csFile {
         })
     }
 
-    fn parse_header(reader: &mut BufReader<File>) -> Result<R1csHeader> {
+    fn parse_header<R: Read>(reader: &mut Take<R>) -> Result<R1csHeader> {
         let field_size = read_u32(reader)?;
+        ensure_remaining(reader, field_size as usize, 1)?;
         let mut prime = vec![0u8; field_size as usize];
         reader.read_exact(&mut prime)?;
 
@@ -196,11 +204,13 @@ impl R1csFile {
         })
     }
 
-    fn parse_constraints(
-        reader: &mut BufReader<File>,
+    fn parse_constraints<R: Read>(
+        reader: &mut Take<R>,
         n_constraints: usize,
         field_size: usize,
     ) -> Result<Vec<Constraint>> {
+        // Every constraint holds at least the three factor counts
+        ensure_remaining(reader, n_constraints, 12)?;
         let mut constraints = Vec::with_capacity(n_constraints);
 
         for _ in 0..n_constraints {
@@ -214,8 +224,9 @@ impl R1csFile {
         Ok(constraints)
     }
 
-    fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
+    fn parse_lc<R: Read>(reader: &mut Take<R>, field_size: usize) -> Result<LinearCombination> {
         let n_factors = read_u32(reader)?;
+        ensure_remaining(reader, n_factors as usize, 4 + field_size)?;
         let mut factors = Vec::with_capacity(n_factors as usize);
 
         for _ in 0..n_factors {
@@ -228,7 +239,8 @@ impl R1csFile {
         Ok(LinearCombination { factors })
     }
 
-    fn parse_wire2label(reader: &mut BufReader<File>, n_wires: usize) -> Result<Vec<u64>> {
+    fn parse_wire2label<R: Read>(reader: &mut Take<R>, n_wires: usize) -> Result<Vec<u64>> {
+        ensure_remaining(reader, n_wires, 8)?;
         let mut wire2label = Vec::with_capacity(n_wires);
         for _ in 0..n_wires {
             wire2label.push(read_u64(reader)?);
@@ -254,14 +266,22 @@ struct R1csHeader {
     n_constraints: u32,
 }
 
+// Check that a section still holds `count` items of `size` bytes before allocating for them
+fn ensure_remaining<R>(reader: &Take<R>, count: usize, size: usize) -> Result<()> {
+    if (count as u64).saturating_mul(size as u64) > reader.limit() {
+        bail!("R1CS section is shorter than its announced contents");
+    }
+    Ok(())
+}
+
 // Helper functions for reading little-endian integers
-fn read_u32(reader: &mut BufReader<File>) -> Result<u32> {
+fn read_u32<R: Read>(reader: &mut R) -> Result<u32> {
     let mut buf = [0u8; 4];
     reader.read_exact(&mut buf)?;
     Ok(u32::from_le_bytes(buf))
 }
 
-fn read_u64(reader: &mut BufReader<File>) -> Result<u64> {
+fn read_u64<R: Read>(reader: &mut R) -> Result<u64> {
     let mut buf = [0u8; 8];
     reader.read_exact(&mut buf)?;
     Ok(u64::from_le_bytes(buf))
-- 
2.43.0


From 0087ad4ae0fb827988b96df9b538507de8138360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:05 +0000
Subject: [PATCH 2/7] fix: map nested array inputs to their wires in zkenc-js

---
 packages/zkenc-js/src/sym_parser.ts | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 01d6be3..76d4fc7 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -95,13 +95,9 @@ export function mapInputsToWires(
     const fullKey = prefix ? `${prefix}.${key}` : key;
 
     if (Array.isArray(value)) {
-      // Handle array inputs
+      // Handle array inputs; elements may themselves be arrays or objects
       for (let i = 0; i < value.length; i++) {
-        const arrayKey = `${fullKey}[${i}]`;
-        const wireId = wireMap.get(arrayKey);
-        if (wireId !== undefined) {
-          wireValues.set(wireId, value[i].toString());
-        }
+        flattenInput(`${key}[${i}]`, value[i], prefix);
       }
     } else if (typeof value === "object" && value !== null) {
       // Recursively handle nested objects
-- 
2.43.0


From 3315a42a6d695740fef61f179e7d4c6e1f2cd459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 3/7] fix: reduce public inputs modulo the prime in zkenc-js
 encap

---
 packages/zkenc-js/src/zkenc.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c0b384c..04109ef 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -205,7 +205,9 @@ function serializeWitnessSimple(witness: bigint[]): Uint8Array {
 
   // Witness values
   for (const value of witness) {
-    const valueBytes = bigIntToLeBytes32(value);
+    // Field elements are integers modulo the prime, e.g. -1 is prime - 1
+    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;
+    const valueBytes = bigIntToLeBytes32(reduced);
     bytes.set(valueBytes, offset);
     offset += 32;
   }
-- 
2.43.0


From d0c948474c3e3830235ef90bfb56c038b058fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:09 +0000
Subject: [PATCH 4/7] fix: reject witness files whose announced sizes exceed
 the file or section

A section size or field size larger than what is left of the file was allocated before reading, up to aborting
with a capacity overflow, and the header was read past the end of its section.
---
 packages/zkenc-cli/src/witness.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index d6ee093..84d4c27 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -62,24 +62,23 @@ impl WitnessFile {
             match section_type {
                 1 => {
                     // Header section
-                    let field_size = read_u32_le(&mut reader)?;
+                    let section = read_bytes(&mut reader, section_size)?;
+                    let mut header = &section[..];
+                    let field_size = read_u32_le(&mut header)?;
 
                     // Read prime modulus
-                    prime = vec![0u8; field_size as usize];
-                    reader.read_exact(&mut prime)?;
+                    prime = read_bytes(&mut header, field_size as u64)?;
 
                     // Read witness count
-                    n_witness = read_u32_le(&mut reader)?;
+                    n_witness = read_u32_le(&mut header)?;
                 }
                 2 => {
                     // Witness data section
-                    witness_data = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut witness_data)?;
+                    witness_data = read_bytes(&mut reader, section_size)?;
                 }
                 _ => {
                     // Skip unknown sections
-                    let mut skip = vec![0u8; section_size as usize];
-                    reader.read_exact(&mut skip)?;
+                    read_bytes(&mut reader, section_size)?;
                 }
             }
         }
@@ -140,6 +139,16 @@ impl WitnessFile {
     }
 }
 
+// Read exactly `len` bytes, allocating no more than the file actually holds
+fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(len).read_to_end(&mut buf)?;
+    if buf.len() as u64 != len {
+        bail!("Unexpected end of wtns file");
+    }
+    Ok(buf)
+}
+
 // Helper functions for reading little-endian integers
 
 fn read_u32_le<R: Read>(reader: &mut R) -> Result<u32> {
-- 
2.43.0


From 1852e69db0c6ade7446f55fc9470c5c97100229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 5/7] fix: reject malformed circuit and witness bytes in
 zkenc-js instead of trapping

---
 packages/zkenc-js/src/lib.rs | 115 ++++++++++++++++++++---------------
 1 file changed, 66 insertions(+), 49 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 71be291..0c5e0fd 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -122,10 +122,13 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
     let mut sections = Vec::new();
     for _ in 0..n_sections {
         let section_type = read_u32(&mut pos)?;
-        let section_len = read_u64(&mut pos)? as usize;
+        let section_len = read_u64(&mut pos)?;
         let section_start = pos;
+        if section_len > (data.len() - section_start) as u64 {
+            return Err("Section exceeds the data".to_string());
+        }
         sections.push((section_type, section_len, section_start));
-        pos = section_start + section_len;
+        pos = section_start + section_len as usize;
     }
 
     // Second pass: find and parse header section first
@@ -138,7 +141,7 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let mut header_pos = header_section.2;
         let field_size = read_u32(&mut header_pos)?;
         let prime_len = field_size as usize;
-        if header_pos + prime_len > data.len() {
+        if prime_len > data.len() - header_pos {
             return Err("Invalid prime length".to_string());
         }
         header_pos += prime_len; // Skip prime bytes
@@ -150,6 +153,10 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let _n_labels = read_u64(&mut header_pos)?;
         let n_constraints = read_u32(&mut header_pos)?;
 
+        if n_pub_out.checked_add(n_pub_in).is_none() {
+            return Err("Invalid number of public inputs".to_string());
+        }
+
         R1csHeader {
             field_size,
             n_wires,
@@ -215,7 +222,7 @@ fn parse_linear_combination(
         *pos += 4;
 
         let value_len = field_size as usize;
-        if *pos + value_len > data.len() {
+        if value_len > data.len() - *pos {
             return Err("Unexpected end of data reading factor value".to_string());
         }
         let value = data[*pos..*pos + value_len].to_vec();
@@ -232,68 +239,80 @@ fn parse_linear_combination(
 //////////////////////////////////////////////////////////////////////////////
 
 fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
-    let mut pos = 0;
+    let mut rest = data;
+
+    // Helper to take the next `len` bytes
+    fn take<'a>(rest: &mut &'a [u8], len: u64) -> Result<&'a [u8], String> {
+        if len > rest.len() as u64 {
+            return Err("Unexpected end of data".to_string());
+        }
+        let (head, tail) = rest.split_at(len as usize);
+        *rest = tail;
+        Ok(head)
+    }
+
+    // Helper to read u32
+    fn read_u32(rest: &mut &[u8]) -> Result<u32, String> {
+        let b = take(rest, 4)?;
+        Ok(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
+    }
+
+    // Helper to read u64
+    fn read_u64(rest: &mut &[u8]) -> Result<u64, String> {
+        let b = take(rest, 8)?;
+        Ok(u64::from_le_bytes([
+            b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7],
+        ]))
+    }
 
     // Check magic "wtns"
-    if pos + 4 > data.len() || &data[pos..pos + 4] != b"wtns" {
+    if !rest.starts_with(b"wtns") {
         return Err("Invalid witness file: wrong magic".to_string());
     }
-    pos += 4;
+    take(&mut rest, 4)?;
 
     // Version
-    let version = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let version = read_u32(&mut rest)?;
     if version != 2 {
         return Err(format!("Unsupported witness version: {}", version));
     }
 
     // Number of sections
-    let n_sections = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-    pos += 4;
+    let n_sections = read_u32(&mut rest)?;
 
-    let mut witness: Vec<Fr> = Vec::new();
-    let mut n8 = 0usize;
+    let mut header = None;
+    let mut values = None;
 
     for _ in 0..n_sections {
-        let section_type =
-            u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
-        pos += 4;
-
-        let section_len = u64::from_le_bytes([
-            data[pos],
-            data[pos + 1],
-            data[pos + 2],
-            data[pos + 3],
-            data[pos + 4],
-            data[pos + 5],
-            data[pos + 6],
-            data[pos + 7],
-        ]) as usize;
-        pos += 8;
-
-        let section_end = pos + section_len;
+        let section_type = read_u32(&mut rest)?;
+        let section_len = read_u64(&mut rest)?;
+        let section = take(&mut rest, section_len)?;
 
         if section_type == 1 {
-            // Header section
-            n8 = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]])
-                as usize;
+            header = Some(section);
         } else if section_type == 2 {
-            // Witness values section - contains raw witness data (field_size * n_witness bytes)
-            // Read all witness values directly
-            while pos + n8 <= section_end {
-                let mut bytes = vec![0u8; 32];
-                let copy_len = n8.min(32);
-                bytes[..copy_len].copy_from_slice(&data[pos..pos + copy_len]);
-
-                witness.push(Fr::from_le_bytes_mod_order(&bytes));
-                pos += n8;
-            }
+            values = Some(section);
         }
+    }
 
-        pos = section_end;
+    // Header section: field size, prime, number of values
+    let mut header = header.ok_or("Header section (type 1) not found")?;
+    let n8 = read_u32(&mut header)? as usize;
+    if n8 == 0 {
+        return Err("Invalid field size".to_string());
     }
 
-    Ok(witness)
+    // Witness values section - contains raw witness data (field_size * n_witness bytes)
+    let values = values.ok_or("Witness section (type 2) not found")?;
+    Ok(values
+        .chunks_exact(n8)
+        .map(|value| {
+            let mut bytes = [0u8; 32];
+            let copy_len = n8.min(32);
+            bytes[..copy_len].copy_from_slice(&value[..copy_len]);
+            Fr::from_le_bytes_mod_order(&bytes)
+        })
+        .collect())
 }
 
 //////////////////////////////////////////////////////////////////////////////
@@ -396,10 +415,8 @@ pub fn wasm_encap(r1cs_bytes: &[u8], witness_bytes: &[u8]) -> Result<EncapResult
     
     // Create witness map with constant and public inputs only
     let mut witness_map = HashMap::new();
-    for i in 0..=(n_pub as u32) {
-        if (i as usize) < witness_values.len() {
-            witness_map.insert(i, witness_values[i as usize]);
-        }
+    for (i, value) in witness_values.iter().take(n_pub.saturating_add(1)).enumerate() {
+        witness_map.insert(i as u32, *value);
     }
 
     // Create circuit with only public inputs assigned
-- 
2.43.0


From 48fff6532f31072d4c7752ac8d2d4635ff692201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:25 +0000
Subject: [PATCH 6/7] fix: bind the public inputs that follow a circuit's
 public outputs

Public wires are outputs first, then inputs; limiting the signals to the
first n_pub_in wires silently dropped the inputs of every circuit that has
public outputs.
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 4cb13e8..9c5a818 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -39,7 +39,7 @@ pub fn encap_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -176,7 +176,7 @@ pub fn encrypt_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
-- 
2.43.0


From 21fb1055fc1c2dfb46cef37842af4c5cb8e6b86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:25 +0000
Subject: [PATCH 7/7] fix: read negative JSON integers as field elements

A negative number was reinterpreted as an unsigned 64-bit integer, so -1
became 2^64-1 instead of p-1, unlike the decimal string "-1".
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 9c5a818..3e1a5fe 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -419,7 +419,7 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
@@ -471,7 +471,7 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-- 
2.43.0

