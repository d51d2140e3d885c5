From c08f8b41d40f3d60cffb04a9af4b4fee0037b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 01/18] fix: report an error rather than panicking when a
 schema ends with a dangling comment

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 39c70ad..5f25020 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -313,8 +313,10 @@ fn parse_schema(
 
         // Parse the keyword [tag:keyword_is_struct_or_choice].
         let keyword =
-            if let token::Variant::Struct | token::Variant::Choice = tokens[*position].variant {
-                tokens[*position].variant.clone()
+            if let Some(variant @ (token::Variant::Struct | token::Variant::Choice)) =
+                tokens.get(*position).map(|token| &token.variant)
+            {
+                variant.clone()
             } else {
                 errors.push(unexpected_token(
                     source_path,
-- 
2.43.0


From d17e0569a334d3309f1b6506b83db20d156984a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/18] fix: preserve the $ sigil when formatting identifiers
 that are keywords

---
 src/schema.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index a23bcdb..bc135e4 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -17,6 +17,18 @@ use {
 
 const MAX_COLUMNS: usize = 79;
 
+// Render an identifier that has already been converted to the appropriate case such that it can be
+// parsed back as that same identifier. Identifiers which would otherwise be interpreted as keywords
+// need to be written with the `$` sigil.
+fn escape_keyword(name: String) -> String {
+    match name.as_str() {
+        ASYMMETRIC_KEYWORD | AS_KEYWORD | BOOL_KEYWORD | BYTES_KEYWORD | CHOICE_KEYWORD
+        | DELETED_KEYWORD | F64_KEYWORD | IMPORT_KEYWORD | OPTIONAL_KEYWORD | S64_KEYWORD
+        | STRING_KEYWORD | STRUCT_KEYWORD | U64_KEYWORD | UNIT_KEYWORD => format!("${name}"),
+        _ => name,
+    }
+}
+
 #[derive(Clone, Debug)]
 pub struct Schema {
     pub comment: Vec<String>,
@@ -180,7 +192,7 @@ impl Import {
                 IMPORT_KEYWORD,
                 self.path.display(),
                 AS_KEYWORD,
-                name.snake_case(),
+                escape_keyword(name.snake_case()),
             )
         }
     }
@@ -192,7 +204,7 @@ impl Declaration {
 
         self.variant.write(f)?;
 
-        writeln!(f, " {} {{", self.name.pascal_case())?;
+        writeln!(f, " {} {{", escape_keyword(self.name.pascal_case()))?;
 
         let mut previous_field_has_comment = false;
 
@@ -249,7 +261,7 @@ impl Field {
             }
         }
 
-        write!(f, "{}", self.name.snake_case())?;
+        write!(f, "{}", escape_keyword(self.name.snake_case()))?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -281,9 +293,14 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write!(f, "{}.{}", import.snake_case(), name.pascal_case())?;
+                    write!(
+                        f,
+                        "{}.{}",
+                        escape_keyword(import.snake_case()),
+                        escape_keyword(name.pascal_case()),
+                    )?;
                 } else {
-                    write!(f, "{}", name.pascal_case())?;
+                    write!(f, "{}", escape_keyword(name.pascal_case()))?;
                 }
             }
             Self::F64 => {
-- 
2.43.0


From 9c3e3fc0d17cd41b4963a58be37c72094fcf48f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 03/18] fix: report a conflict when distinct files share a
 namespace rather than silently dropping one

---
 src/schema_loader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index 4dbdb43..e4f553a 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -120,12 +120,12 @@ pub fn load_schemas(
     // Initialize the "frontier" with the given path. Paths in the frontier are relative to
     // `base_path` [tag:frontier_paths_based].
     let mut schemas_to_load = vec![(
-        schema_namespace.clone(),
+        schema_namespace,
         based_schema_path.to_owned(),
         None as Option<(PathBuf, String)>,
     )];
-    let mut visited_namespaces = HashSet::new();
-    visited_namespaces.insert(schema_namespace);
+    let mut visited_paths = HashSet::new();
+    visited_paths.insert(based_schema_path.to_owned());
 
     // Perform a depth-first traversal of the transitive dependencies.
     while let Some((namespace, path, origin)) = schemas_to_load.pop() {
@@ -229,8 +229,7 @@ pub fn load_schemas(
             import.namespace = Some(import_namespace.clone());
 
             // Visit this import if it hasn't been visited already.
-            if !visited_namespaces.contains(&import_namespace) {
-                visited_namespaces.insert(import_namespace.clone());
+            if visited_paths.insert(based_import_path.clone()) {
                 schemas_to_load.push((
                     import_namespace,
                     based_import_path,
-- 
2.43.0


From a74802852bd74df2465a1fed5828ffd82e161638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 04/18] fix: generate valid local variable names for struct
 fields that are Rust keywords

---
 src/generate_rust.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index e5d76d0..c1c1fcd 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -643,7 +643,7 @@ fn write_schema<T: Write>(
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
                         write!(buffer, "let _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write_local_variable_suffix(buffer, &field.name)?;
                         match field.rule {
                             schema::Rule::Asymmetric | schema::Rule::Required => {
                                 write!(buffer, " = {{ let payload = &self.")?;
@@ -693,12 +693,12 @@ fn write_schema<T: Write>(
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Required => {
                             write!(buffer, "{{ let payload_atlas = &_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write_local_variable_suffix(buffer, &field.name)?;
                             write!(buffer, "; let payload_size = ")?;
                         }
                         schema::Rule::Optional => {
                             write!(buffer, "_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write_local_variable_suffix(buffer, &field.name)?;
                             write!(
                                 buffer,
                                 ".as_ref().map_or(0_usize, |payload_atlas| {{ let payload_size = ",
@@ -726,7 +726,7 @@ fn write_schema<T: Write>(
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
                     write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write_local_variable_suffix(buffer, &field.name)?;
                     writeln!(buffer, ",")?;
                 }
                 write_indentation(buffer, indentation + 2)?;
@@ -818,7 +818,7 @@ fn write_schema<T: Write>(
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
                         write!(buffer, "let mut _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write_local_variable_suffix(buffer, &field.name)?;
                         write!(buffer, ": Option<")?;
                         write_type(buffer, &imports, namespace, &field.r#type.variant, In)?;
                         writeln!(buffer, "> = None;")?;
@@ -875,7 +875,7 @@ fn write_schema<T: Write>(
                     )?;
                     write_indentation(buffer, indentation + 5)?;
                     write!(buffer, "_")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write_local_variable_suffix(buffer, &field.name)?;
                     writeln!(buffer, ".get_or_insert(payload);")?;
                     write_indentation(buffer, indentation + 4)?;
                     writeln!(buffer, "}}")?;
@@ -913,7 +913,7 @@ fn write_schema<T: Write>(
                                     write!(buffer, "|| ")?;
                                 }
                                 write!(buffer, "_")?;
-                                write_identifier(buffer, &field.name, Snake, None)?;
+                                write_local_variable_suffix(buffer, &field.name)?;
                                 write!(buffer, ".is_none()")?;
                             }
                         }
@@ -940,7 +940,7 @@ fn write_schema<T: Write>(
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
                     write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write_local_variable_suffix(buffer, &field.name)?;
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Optional => {}
                         schema::Rule::Required => {
@@ -1756,6 +1756,15 @@ fn write_identifier<T: Write>(
     Ok(())
 }
 
+// Write the part of the name of a local variable that follows the `_` prefix. Due to that prefix, the
+// name is never a keyword, so a raw identifier (`r#...`) is neither necessary nor valid here.
+fn write_local_variable_suffix<T: Write>(
+    buffer: &mut T,
+    identifier: &Identifier,
+) -> Result<(), fmt::Error> {
+    write!(buffer, "{}", identifier.snake_case())
+}
+
 // Write the given level of indentation.
 fn write_indentation<T: Write>(buffer: &mut T, indentation: usize) -> Result<(), fmt::Error> {
     for _ in 0..indentation {
-- 
2.43.0


From 41101006f0048db79e6c6a76e7e78ea2a8387c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 05/18] fix: report a run of repeated unexpected symbols once,
 and merge errors in linear time

---
 src/error_merger.rs | 45 +++++++++++++++++++++------------------------
 src/tokenizer.rs    | 21 ++++++++++++++++++++-
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/src/error_merger.rs b/src/error_merger.rs
index 36cbaed..86ea0e2 100644
--- a/src/error_merger.rs
+++ b/src/error_merger.rs
@@ -2,31 +2,28 @@ use crate::error::Error;
 
 // Merge a list of errors into a single one.
 pub fn merge_errors(errors: &[Error]) -> Error {
+    let mut message = String::new();
+
+    for error in errors {
+        // Only render an empty line between errors here if the previous line doesn't already
+        // visually look like an empty line. See [ref:overline_u203e].
+        let previous_line_looks_empty = message
+            .rsplit('\n')
+            .next()
+            .unwrap() // Safe since `rsplit` always results in at least one item
+            .chars()
+            .all(|c| c == ' ' || c == '\u{203e}');
+
+        message.push_str(if previous_line_looks_empty {
+            "\n"
+        } else {
+            "\n\n"
+        });
+        message.push_str(&error.to_string());
+    }
+
     Error {
-        message: errors
-            .iter()
-            .fold(String::new(), |acc, error| {
-                format!(
-                    "{}\n{}{}",
-                    acc,
-                    // Only render an empty line between errors here if the previous line doesn't
-                    // already visually look like an empty line. See [ref:overline_u203e].
-                    if acc
-                        .split('\n')
-                        .last()
-                        .unwrap() // Safe since `split` always results in at least one item
-                        .chars()
-                        .all(|c| c == ' ' || c == '\u{203e}')
-                    {
-                        ""
-                    } else {
-                        "\n"
-                    },
-                    error,
-                )
-            })
-            .trim()
-            .to_owned(),
+        message: message.trim().to_owned(),
         reason: None,
     }
 }
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d02ca21..89abd7e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -368,9 +368,28 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                 // already.
                 let end = cursor.next_boundary(schema_contents, 0).unwrap().unwrap();
 
+                let symbol = &schema_contents[i..end];
+
+                // Skip any immediate repetitions of the symbol. There may be a huge number of them
+                // (e.g., if part of the file was overwritten with null bytes), and it's not helpful
+                // to report them individually.
+                let mut run_end = end;
+                while schema_contents[run_end..].starts_with(symbol) {
+                    run_end += symbol.len();
+                }
+                if run_end > end {
+                    while let Some((j, _)) = iter.peek() {
+                        if *j < run_end {
+                            iter.next();
+                        } else {
+                            break;
+                        }
+                    }
+                }
+
                 // Now that we've computed the grapheme cluster, construct and report the error.
                 errors.push(throw::<Error>(
-                    &format!("Unexpected symbol {}.", &schema_contents[i..end].code_str()),
+                    &format!("Unexpected symbol {}.", symbol.code_str()),
                     Some(schema_path),
                     Some(&listing(schema_contents, SourceRange { start: i, end: i })),
                     None,
-- 
2.43.0


From e793e3844fd8fbcf4857fa0e78daad7329e63bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 06/18] fix: report an error rather than overflowing the stack
 on deeply nested types

---
 src/parser.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5f25020..fd6adb0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -12,6 +12,9 @@ use {
     },
 };
 
+// This is the maximum depth of nested array types.
+const MAX_TYPE_DEPTH: usize = 256;
+
 // This function computes the source range for a token, or the empty range at the end of the source
 // file in the case where the given position is at the end of the token stream.
 fn token_source_range(tokens: &[token::Token], position: usize) -> SourceRange {
@@ -658,7 +661,7 @@ fn parse_field(
         }
 
         // Parse the type [ref:parse_type_some_advance].
-        parse_type(source_path, source_contents, tokens, position, errors)?
+        parse_type(source_path, source_contents, tokens, position, errors, 0)?
     } else {
         schema::Type {
             source_range: span_tokens(tokens, *position, *position),
@@ -709,9 +712,25 @@ fn parse_type(
     tokens: &[token::Token],
     position: &mut usize,
     errors: &mut Vec<Error>,
+    depth: usize,
 ) -> Option<schema::Type> {
     let start = *position;
 
+    // Limit the depth of the recursion so that we don't run out of stack space.
+    if depth > MAX_TYPE_DEPTH {
+        errors.push(throw::<Error>(
+            &format!("Arrays cannot be nested more than {MAX_TYPE_DEPTH} levels deep."),
+            Some(source_path),
+            Some(&listing(
+                source_contents,
+                token_source_range(tokens, *position),
+            )),
+            None,
+        ));
+
+        return None;
+    }
+
     // Make sure we have a token to parse next.
     if *position == tokens.len() {
         errors.push(unexpected_token(
@@ -729,8 +748,14 @@ fn parse_type(
     if let token::Variant::LeftSquare = tokens[*position].variant {
         *position += 1;
 
-        if let Some(inner_type) = parse_type(source_path, source_contents, tokens, position, errors)
-        {
+        if let Some(inner_type) = parse_type(
+            source_path,
+            source_contents,
+            tokens,
+            position,
+            errors,
+            depth + 1,
+        ) {
             // Consume the right square bracket.
             consume_token_0!(
                 source_path,
-- 
2.43.0


From 7503f830c79b61a513bf174721fd5263d4694b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 07/18] fix: wrap comments between words only, so that
 formatting preserves and stabilizes them

---
 src/schema.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/schema.rs b/src/schema.rs
index bc135e4..d21227e 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -139,7 +139,20 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             writeln!(f, "{indentation}#")?;
         }
 
-        for line in textwrap::fill(paragraph, MAX_COLUMNS - indentation.len() - 2).lines() {
+        // Wrap the paragraph between words only, so the text doesn't change. The words are separated
+        // by single spaces so that reformatting the result doesn't change where the lines break.
+        let paragraph = paragraph
+            .split(' ')
+            .map(str::trim)
+            .filter(|word| !word.is_empty())
+            .collect::<Vec<_>>()
+            .join(" ");
+        let options = textwrap::Options::new(MAX_COLUMNS - indentation.len() - 2)
+            .word_separator(textwrap::word_separators::AsciiSpace)
+            .word_splitter(textwrap::word_splitters::NoHyphenation)
+            .break_words(false);
+
+        for line in textwrap::wrap(&paragraph, options) {
             writeln!(f, "{indentation}# {line}")?;
         }
     }
-- 
2.43.0


From 7425627b951efb707a63b56266c1ebae0a9bb8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 08/18] fix: report an error when the shell completion script
 cannot be written

---
 src/main.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e2f1bc3..4aff7d4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -25,7 +25,7 @@ use {
     clap::{App, AppSettings, Arg, Shell, SubCommand},
     std::{
         fs::{create_dir_all, write},
-        io::stdout,
+        io::{stdout, Write},
         path::Path,
         process::exit,
     },
@@ -300,11 +300,24 @@ fn shell_completion(shell: &str) -> Result<(), Error> {
         }
     };
 
-    // Write the script to STDOUT.
-    cli().gen_completions_to(BIN_NAME, shell_variant, &mut stdout());
-
-    // If we made it this far, nothing went wrong.
-    Ok(())
+    // Generate the script.
+    let mut script = vec![];
+    cli().gen_completions_to(BIN_NAME, shell_variant, &mut script);
+
+    // Write the script to STDOUT. We flush it explicitly, since any error that occurs when STDOUT is
+    // flushed automatically at exit would be ignored.
+    let mut stdout = stdout();
+    stdout
+        .write_all(&script)
+        .and_then(|()| stdout.flush())
+        .map_err(|error| {
+            throw(
+                "Unable to write the shell completion script.",
+                None,
+                None,
+                Some(error),
+            )
+        })
 }
 
 // Program entrypoint
-- 
2.43.0


From 6c9ca4df33779e695dba0c6586e373f627efbada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 09/18] fix: use the directory containing the schema as the
 base directory even if the schema is a symbolic link

---
 src/schema_loader.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index e4f553a..be275d5 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -10,7 +10,6 @@ use {
         borrow::ToOwned,
         collections::{BTreeMap, HashSet},
         fs::read_to_string,
-        io::{self, ErrorKind},
         path::PathBuf,
         path::{Component, Path},
     },
@@ -67,18 +66,17 @@ pub fn load_schemas(
     // Canonicalize the path to the base directory. This will be used to calculate namespaces below.
     // Note that even with this we still need `base_path` from above, because canonicalization on
     // Windows adds a `\\?\` prefix to the path, which changes the meaning of `..` and thus prevents
-    // us from joining it with other paths containing `..`. Note also that we can't simply
-    // compute this by canonicalizing `base_path`, since `base_path` might have zero components,
-    // which is considered invalid for canonicalization. So, instead, we canonicalize `schma_path`
-    // and take the parent of the result.
-    let canonical_base_path = match schema_path
-        .canonicalize()
-        .and_then(|canonical_schema_path| {
-            canonical_schema_path
-                .parent()
-                .map(ToOwned::to_owned)
-                .ok_or_else(|| io::Error::from(ErrorKind::Other))
-        }) {
+    // us from joining it with other paths containing `..`. Note also that `base_path` might have zero
+    // components, which is considered invalid for canonicalization. And note that we can't simply
+    // canonicalize `schema_path` and take the parent of the result, since `schema_path` might be a
+    // symbolic link to a file in some other directory.
+    let canonical_base_path = match schema_path.canonicalize().and_then(|_| {
+        if base_path.as_os_str().is_empty() {
+            Path::new(".").canonicalize()
+        } else {
+            base_path.canonicalize()
+        }
+    }) {
         Ok(canonical_base_path) => canonical_base_path,
         Err(error) => {
             errors.push(throw(
-- 
2.43.0


From 34cd0d55219b4f620380f0c33ebdcfa965075cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 10/18] fix: refer to types in TypeScript via aliases where a
 nested name shadows a top-level namespace

---
 src/generate_typescript.rs | 112 +++++++++++++++++++++++++++++++++++--
 1 file changed, 108 insertions(+), 4 deletions(-)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 2c24b7a..519a3f5 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -1,7 +1,7 @@
 use {
     crate::{identifier::Identifier, schema},
     std::{
-        collections::BTreeMap,
+        collections::{BTreeMap, BTreeSet},
         fmt::{self, Write},
         path::PathBuf,
     },
@@ -454,6 +454,9 @@ const textDecoder = new TextDecoder();",
         // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is infallible.
         writeln!(&mut buffer).unwrap();
 
+        // Determine which top-level modules need an alias.
+        let aliased_roots = find_aliased_roots(schemas);
+
         // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is infallible.
         write_module_contents(
             &mut buffer,
@@ -461,13 +464,97 @@ const textDecoder = new TextDecoder();",
             &schema::Namespace { components: vec![] },
             &tree.children,
             &tree.schema,
+            &aliased_roots,
         )
         .unwrap();
+
+        // Write the aliases. Note that they have to come after the namespaces they refer to.
+        for (i, root) in aliased_roots.iter().enumerate() {
+            if i == 0 {
+                // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is
+                // infallible.
+                writeln!(&mut buffer).unwrap();
+            }
+
+            // The `unwrap` is safe because the `std::fmt::Write` impl for `String` is infallible.
+            write_root_alias(&mut buffer, root).unwrap();
+        }
     }
 
     buffer
 }
 
+// Types are referred to by their full paths, but TypeScript looks up the first component of such a
+// path in the innermost enclosing namespace first. This function returns the top-level modules that
+// are referred to but which share their names with something nested that could be found instead.
+fn find_aliased_roots(
+    schemas: &BTreeMap<schema::Namespace, (schema::Schema, PathBuf, String)>,
+) -> BTreeSet<Identifier> {
+    let mut nested_names = BTreeSet::new();
+    let mut roots = BTreeSet::new();
+
+    for (namespace, (schema, _, _)) in schemas {
+        for component in namespace.components.iter().skip(1) {
+            nested_names.insert(component.pascal_case());
+        }
+
+        for declaration in &schema.declarations {
+            nested_names.insert(declaration.name.pascal_case());
+
+            for field in &declaration.fields {
+                let mut type_variant = &field.r#type.variant;
+
+                while let schema::TypeVariant::Array(inner_type) = type_variant {
+                    type_variant = &inner_type.variant;
+                }
+
+                if let schema::TypeVariant::Custom(import, _) = type_variant {
+                    // The `unwrap` is safe due to [ref:namespace_populated].
+                    let type_namespace = import.as_ref().map_or(namespace, |import| {
+                        schema.imports[import].namespace.as_ref().unwrap()
+                    });
+
+                    roots.extend(type_namespace.components.first().cloned());
+                }
+            }
+        }
+    }
+
+    roots.retain(|root| nested_names.contains(&root.pascal_case()));
+    roots
+}
+
+// Construct the alias for a top-level module. It cannot coincide with the name of anything else in
+// the generated code.
+fn root_alias(root: &Identifier) -> Identifier {
+    AsRef::<str>::as_ref(&format!("$_$_{}", root.original())).into()
+}
+
+// Write the alias for a top-level module, including a trailing line break.
+fn write_root_alias<T: Write>(buffer: &mut T, root: &Identifier) -> Result<(), fmt::Error> {
+    write!(buffer, "import ")?;
+    write_identifier(buffer, &root_alias(root), Pascal, None)?;
+    write!(buffer, " = ")?;
+    write_identifier(buffer, root, Pascal, None)?;
+    writeln!(buffer, ";")
+}
+
+// If a namespace is to be referred to via an alias, replace the first component with that alias.
+fn use_root_alias(
+    namespace: &schema::Namespace,
+    aliased_roots: &BTreeSet<Identifier>,
+) -> schema::Namespace {
+    let mut components = namespace.components.clone();
+
+    if let Some(root) = components.first_mut() {
+        if let Some(aliased_root) = aliased_roots.get(root) {
+            *root = root_alias(aliased_root);
+        }
+    }
+
+    schema::Namespace { components }
+}
+
 // Insert a schema into a module.
 fn insert_schema(module: &mut Module, namespace: &schema::Namespace, schema: &schema::Schema) {
     let mut iter = namespace.components.iter();
@@ -513,6 +600,7 @@ fn write_module<T: Write>(
     namespace: &schema::Namespace,
     name: &Identifier,
     module: &Module,
+    aliased_roots: &BTreeSet<Identifier>,
 ) -> Result<(), fmt::Error> {
     write_indentation(buffer, indentation)?;
     write!(buffer, "export namespace ")?;
@@ -528,6 +616,7 @@ fn write_module<T: Write>(
         &new_namespace,
         &module.children,
         &module.schema,
+        aliased_roots,
     )?;
 
     write_indentation(buffer, indentation)?;
@@ -543,18 +632,26 @@ fn write_module_contents<T: Write>(
     namespace: &schema::Namespace,
     children: &BTreeMap<Identifier, Module>,
     schema: &schema::Schema,
+    aliased_roots: &BTreeSet<Identifier>,
 ) -> Result<(), fmt::Error> {
     let schema_empty = schema.declarations.is_empty();
 
     for (i, (child_name, child)) in children.iter().enumerate() {
-        write_module(buffer, indentation, namespace, child_name, child)?;
+        write_module(
+            buffer,
+            indentation,
+            namespace,
+            child_name,
+            child,
+            aliased_roots,
+        )?;
 
         if i < children.len() - 1 || !schema_empty {
             writeln!(buffer)?;
         }
     }
 
-    write_schema(buffer, indentation, namespace, schema)?;
+    write_schema(buffer, indentation, namespace, schema, aliased_roots)?;
 
     Ok(())
 }
@@ -566,12 +663,19 @@ fn write_schema<T: Write>(
     indentation: usize,
     namespace: &schema::Namespace,
     schema: &schema::Schema,
+    aliased_roots: &BTreeSet<Identifier>,
 ) -> Result<(), fmt::Error> {
+    // This is how declarations in this schema are referred to.
+    let namespace = &use_root_alias(namespace, aliased_roots);
+
     // Construct a map from import name to namespace.
     let mut imports = BTreeMap::new();
     for (name, import) in &schema.imports {
         // The `unwrap` is safe due to [ref:namespace_populated].
-        imports.insert(name.clone(), import.namespace.clone().unwrap());
+        imports.insert(
+            name.clone(),
+            use_root_alias(import.namespace.as_ref().unwrap(), aliased_roots),
+        );
     }
 
     // Write the declarations.
-- 
2.43.0


From 786b2cd05c184928141c8e1c12571d2c64d4c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:45 +0000
Subject: [PATCH 11/18] fix: do not let generated TypeScript names hide globals
 or coincide with inherited properties

---
 src/generate_typescript.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 519a3f5..c369dba 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -95,6 +95,27 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These names are not keywords, but generated declarations with these names would hide globals that
+// the generated code uses, and fields with these names would be confused with the properties that
+// every JavaScript object inherits.
+const TYPESCRIPT_RESERVED_NAMES: &[&str] = &[
+    "ArrayBuffer",
+    "BigInt",
+    "DataView",
+    "Error",
+    "Number",
+    "Object",
+    "TextDecoder",
+    "TextEncoder",
+    "Uint8Array",
+    "hasOwnProperty",
+    "isPrototypeOf",
+    "propertyIsEnumerable",
+    "toLocaleString",
+    "toString",
+    "valueOf",
+];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -1800,7 +1821,8 @@ fn write_identifier<T: Write>(
 
     if TYPESCRIPT_KEYWORDS
         .iter()
-        .any(|keyword| converted_identifier == *keyword)
+        .chain(TYPESCRIPT_RESERVED_NAMES)
+        .any(|name| converted_identifier == *name)
     {
         write!(buffer, "_")?;
     }
-- 
2.43.0


From ef44f5c631267527be7c6d107693409362cd4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:17 +0000
Subject: [PATCH 12/18] fix: generate valid Rust for names which cannot be raw
 identifiers and for files named io.t or std.t

---
 src/generate_rust.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index c1c1fcd..fbf2858 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -73,6 +73,12 @@ const RUST_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These keywords cannot be used as raw identifiers.
+const RUST_NON_RAW_KEYWORDS: &[&str] = &["Self", "crate", "self", "super"];
+
+// Top-level modules with these names would conflict with imports used by the generated code.
+const RUST_RESERVED_MODULE_NAMES: &[&str] = &["io", "std"];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -452,7 +458,7 @@ fn write_module<T: Write>(
 ) -> Result<(), fmt::Error> {
     write_indentation(buffer, indentation)?;
     write!(buffer, "pub mod ")?;
-    write_identifier(buffer, name, Snake, None)?;
+    write_module_name(buffer, name, namespace.components.is_empty())?;
     writeln!(buffer, " {{")?;
 
     let mut new_namespace = namespace.clone();
@@ -1666,8 +1672,9 @@ fn write_type<T: Write>(
 
             write_supers(buffer, ancestors)?;
 
-            for component in relative_type_namespace.components {
-                write_identifier(buffer, &component, Snake, None)?;
+            for (i, component) in relative_type_namespace.components.iter().enumerate() {
+                let top_level = i == 0 && ancestors == namespace.components.len();
+                write_module_name(buffer, component, top_level)?;
                 write!(buffer, "::")?;
             }
 
@@ -1748,7 +1755,11 @@ fn write_identifier<T: Write>(
         .iter()
         .any(|keyword| converted_identifier == *keyword)
     {
-        write!(buffer, "r#")?;
+        let raw = !RUST_NON_RAW_KEYWORDS
+            .iter()
+            .any(|keyword| converted_identifier == *keyword);
+
+        write!(buffer, "{}", if raw { "r#" } else { "_" })?;
     }
 
     write!(buffer, "{converted_identifier}")?;
@@ -1756,6 +1767,23 @@ fn write_identifier<T: Write>(
     Ok(())
 }
 
+// Write the name of a module.
+fn write_module_name<T: Write>(
+    buffer: &mut T,
+    name: &Identifier,
+    top_level: bool,
+) -> Result<(), fmt::Error> {
+    if top_level
+        && RUST_RESERVED_MODULE_NAMES
+            .iter()
+            .any(|reserved_name| name.snake_case() == *reserved_name)
+    {
+        write!(buffer, "_")?;
+    }
+
+    write_identifier(buffer, name, Snake, None)
+}
+
 // Write the part of the name of a local variable that follows the `_` prefix. Due to that prefix, the
 // name is never a keyword, so a raw identifier (`r#...`) is neither necessary nor valid here.
 fn write_local_variable_suffix<T: Write>(
-- 
2.43.0


From 798f6b8369f16c879f327d61df9adfd888f39c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:32 +0000
Subject: [PATCH 13/18] fix: search for cyclic types without recursion, so that
 long chains of types do not overflow the stack

---
 src/validator.rs | 186 ++++++++++++++++++++---------------------------
 1 file changed, 79 insertions(+), 107 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index c86ef1e..aa453aa 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -145,16 +145,12 @@ pub fn validate(
     // [tag:schemas_valid_except_possible_cycles].
     if errors.is_empty() {
         let mut types_checked = HashSet::new();
-        let mut types_visited_set = HashSet::new();
-        let mut types_visited_vec = vec![];
 
         for (namespace, (schema, _, _)) in schemas {
             for declaration in &schema.declarations {
                 check_declaration_for_cycles(
                     &all_types,
                     &mut types_checked,
-                    &mut types_visited_set,
-                    &mut types_visited_vec,
                     &mut errors,
                     namespace,
                     &declaration.name,
@@ -244,116 +240,98 @@ fn validate_type(
     }
 }
 
-// This function checks that declarations have no cycles.
+// This function checks that declarations have no cycles. It's a depth-first search with an explicit
+// stack, since chains of types may be too long for recursion.
 fn check_declaration_for_cycles(
     all_types: &HashMap<(schema::Namespace, Identifier), (&schema::Schema, &schema::Declaration)>,
     types_checked: &mut HashSet<(schema::Namespace, Identifier)>,
-    types_visited_set: &mut HashSet<(schema::Namespace, Identifier)>,
-    types_visited_vec: &mut Vec<(schema::Namespace, Identifier)>,
     errors: &mut Vec<Error>,
     namespace: &schema::Namespace,
     name: &Identifier,
 ) {
-    // Compute this once here so we don't have to compute it in multiple places below.
-    let qualified_type = (namespace.clone(), name.clone());
-
-    // Stop if we've already checked this type.
-    if types_checked.contains(&qualified_type) {
-        return;
-    }
+    // These are the types being visited. Each type in the vector is accompanied by the types of its
+    // fields that remain to be checked.
+    let mut types_visited_set = HashSet::new();
+    let mut types_visited_vec = vec![];
+
+    // This is the next type to visit.
+    let mut next_type = Some((namespace.clone(), name.clone()));
+
+    loop {
+        // Skip this type if we've already checked it.
+        if let Some(qualified_type) = next_type
+            .take()
+            .filter(|qualified_type| !types_checked.contains(qualified_type))
+        {
+            // Visit this type or report a cycle if the type has already been visited.
+            if types_visited_set.insert(qualified_type.clone()) {
+                let field_types = field_types(all_types, &qualified_type);
+                types_visited_vec.push((qualified_type, field_types.into_iter()));
+            } else {
+                errors.push(throw::<Error>(
+                    &format!(
+                        "Cycle detected: {}.",
+                        types_visited_vec
+                            .iter()
+                            .map(|(visited_type, _)| visited_type)
+                            .chain([&qualified_type])
+                            .map(|(namespace, name)| {
+                                format!("{}.{}", namespace, name.pascal_case())
+                                    .code_str()
+                                    .to_string()
+                            })
+                            .collect::<Vec<_>>()
+                            .join(" \u{2192} "),
+                    ),
+                    None,
+                    None,
+                    None,
+                ));
 
-    // Visit this type or report a cycle if the type has already been visited.
-    types_visited_vec.push(qualified_type.clone());
-    if !types_visited_set.insert(qualified_type.clone()) {
-        errors.push(throw::<Error>(
-            &format!(
-                "Cycle detected: {}.",
-                types_visited_vec
-                    .iter()
-                    .map(|(namespace, name)| {
-                        format!("{}.{}", namespace, name.pascal_case())
-                            .code_str()
-                            .to_string()
-                    })
-                    .collect::<Vec<_>>()
-                    .join(" \u{2192} "),
-            ),
-            None,
-            None,
-            None,
-        ));
-
-        // Un-visit this type.
-        types_visited_vec.pop();
-
-        // Record that the type has been checked to avoid reporting this cycle multiple times. Note
-        // that we haven't necessarily checked all the fields of this type (and the fields of the
-        // types of those fields, etc.), but we know they are being checked by a call higher in the
-        // stack (since this is the second time we've seen this type in this call stack).
-        types_checked.insert(qualified_type);
-
-        return;
-    }
+                // Record that the type has been checked to avoid reporting this cycle multiple
+                // times. Note that we haven't necessarily checked all the fields of this type (and
+                // the fields of the types of those fields, etc.), but we know they are being checked
+                // (since this type is on the stack).
+                types_checked.insert(qualified_type);
+            }
+        }
 
-    // Check the type of each field. The `unwrap` is safe due to
-    // [ref:schemas_valid_except_possible_cycles].
-    let (schema, declaration) = all_types.get(&qualified_type).unwrap();
-    for field in &declaration.fields {
-        check_type_for_cycles(
-            all_types,
-            types_checked,
-            types_visited_set,
-            types_visited_vec,
-            errors,
-            namespace,
-            schema,
-            &field.r#type,
-        );
-    }
+        // Proceed with the next field of the innermost type, if there is one.
+        let Some((_, field_types)) = types_visited_vec.last_mut() else {
+            break;
+        };
 
-    // Un-visit this type.
-    types_visited_set.remove(&qualified_type);
-    types_visited_vec.pop();
+        next_type = field_types.next();
 
-    // Record that the type has been checked.
-    types_checked.insert(qualified_type);
+        if next_type.is_none() {
+            // Un-visit this type and record that it has been checked.
+            if let Some((qualified_type, _)) = types_visited_vec.pop() {
+                types_visited_set.remove(&qualified_type);
+                types_checked.insert(qualified_type);
+            }
+        }
+    }
 }
 
-// This function checks that types have no cycles.
-#[allow(clippy::too_many_arguments)]
-fn check_type_for_cycles(
+// This function returns the custom types that the fields of a declaration refer to.
+fn field_types(
     all_types: &HashMap<(schema::Namespace, Identifier), (&schema::Schema, &schema::Declaration)>,
-    types_checked: &mut HashSet<(schema::Namespace, Identifier)>,
-    types_visited_set: &mut HashSet<(schema::Namespace, Identifier)>,
-    types_visited_vec: &mut Vec<(schema::Namespace, Identifier)>,
-    errors: &mut Vec<Error>,
-    namespace: &schema::Namespace,
-    schema: &schema::Schema,
-    r#type: &schema::Type,
-) {
-    match &r#type.variant {
-        schema::TypeVariant::Array(inner_type) => {
-            check_type_for_cycles(
-                all_types,
-                types_checked,
-                types_visited_set,
-                types_visited_vec,
-                errors,
-                namespace,
-                schema,
-                inner_type,
-            );
+    qualified_type: &(schema::Namespace, Identifier),
+) -> Vec<(schema::Namespace, Identifier)> {
+    // The `unwrap` is safe due to [ref:schemas_valid_except_possible_cycles].
+    let (schema, declaration) = all_types.get(qualified_type).unwrap();
+    let mut field_types = vec![];
+
+    for field in &declaration.fields {
+        let mut type_variant = &field.r#type.variant;
+
+        while let schema::TypeVariant::Array(inner_type) = type_variant {
+            type_variant = &inner_type.variant;
         }
-        schema::TypeVariant::Bool
-        | schema::TypeVariant::Bytes
-        | schema::TypeVariant::F64
-        | schema::TypeVariant::S64
-        | schema::TypeVariant::String
-        | schema::TypeVariant::U64
-        | schema::TypeVariant::Unit => {}
-        schema::TypeVariant::Custom(import, name) => {
+
+        if let schema::TypeVariant::Custom(import, name) = type_variant {
             let type_namespace = import.as_ref().map_or_else(
-                || namespace.clone(),
+                || qualified_type.0.clone(),
                 |import|
                     // The first `unwrap` is safe due to
                     // [ref:schemas_valid_except_possible_cycles]. The second `unwrap`
@@ -367,17 +345,11 @@ fn check_type_for_cycles(
                     .unwrap(),
             );
 
-            check_declaration_for_cycles(
-                all_types,
-                types_checked,
-                types_visited_set,
-                types_visited_vec,
-                errors,
-                &type_namespace,
-                name,
-            );
+            field_types.push((type_namespace, name.clone()));
         }
     }
+
+    field_types
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1e2b96b8977465d7313a641e89ed7d2d6d1913ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:32 +0000
Subject: [PATCH 14/18] fix: do not let generated TypeScript names hide Array
 and RangeError either

---
 src/generate_typescript.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index c369dba..0ba1e11 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -99,12 +99,14 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
 // the generated code uses, and fields with these names would be confused with the properties that
 // every JavaScript object inherits.
 const TYPESCRIPT_RESERVED_NAMES: &[&str] = &[
+    "Array",
     "ArrayBuffer",
     "BigInt",
     "DataView",
     "Error",
     "Number",
     "Object",
+    "RangeError",
     "TextDecoder",
     "TextEncoder",
     "Uint8Array",
-- 
2.43.0


From a26ea8121c8f84a1401e07ffa4e4f290ee98d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:32 +0000
Subject: [PATCH 15/18] fix: generate valid Rust for nested files and
 directories named std too

---
 src/generate_rust.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index fbf2858..d484f28 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -76,8 +76,11 @@ const RUST_KEYWORDS: &[&str] = &[
 // These keywords cannot be used as raw identifiers.
 const RUST_NON_RAW_KEYWORDS: &[&str] = &["Self", "crate", "self", "super"];
 
+// The generated code refers to the standard library via its name, so no module can have that name.
+const RUST_RESERVED_MODULE_NAMES: &[&str] = &["std"];
+
 // Top-level modules with these names would conflict with imports used by the generated code.
-const RUST_RESERVED_MODULE_NAMES: &[&str] = &["io", "std"];
+const RUST_RESERVED_TOP_LEVEL_MODULE_NAMES: &[&str] = &["io"];
 
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
@@ -1773,10 +1776,10 @@ fn write_module_name<T: Write>(
     name: &Identifier,
     top_level: bool,
 ) -> Result<(), fmt::Error> {
-    if top_level
-        && RUST_RESERVED_MODULE_NAMES
-            .iter()
-            .any(|reserved_name| name.snake_case() == *reserved_name)
+    let is_name = |reserved_name: &&str| name.snake_case() == *reserved_name;
+
+    if RUST_RESERVED_MODULE_NAMES.iter().any(is_name)
+        || (top_level && RUST_RESERVED_TOP_LEVEL_MODULE_NAMES.iter().any(is_name))
     {
         write!(buffer, "_")?;
     }
-- 
2.43.0


From 37250018a90a26bcd9af1642bb2137b4ccbd3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 16/18] fix: format comments with very long words without
 overflowing

---
 src/schema.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/schema.rs b/src/schema.rs
index d21227e..54c05f9 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -13,9 +13,11 @@ use {
         fmt::{self, Display, Formatter, Write},
         path::PathBuf,
     },
+    textwrap::wrap_algorithms::{FirstFit, OptimalFit, WrapAlgorithm},
 };
 
 const MAX_COLUMNS: usize = 79;
+const MAX_OPTIMAL_FIT_LENGTH: usize = 100_000; // Bytes
 
 // Render an identifier that has already been converted to the appropriate case such that it can be
 // parsed back as that same identifier. Identifiers which would otherwise be interpreted as keywords
@@ -147,7 +149,15 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             .filter(|word| !word.is_empty())
             .collect::<Vec<_>>()
             .join(" ");
+        // The optimal-fit algorithm computes costs which can overflow when the text is very long.
+        let wrap_algorithm: Box<dyn WrapAlgorithm> = if paragraph.len() > MAX_OPTIMAL_FIT_LENGTH {
+            Box::new(FirstFit)
+        } else {
+            Box::new(OptimalFit)
+        };
+
         let options = textwrap::Options::new(MAX_COLUMNS - indentation.len() - 2)
+            .wrap_algorithm(wrap_algorithm)
             .word_separator(textwrap::word_separators::AsciiSpace)
             .word_splitter(textwrap::word_splitters::NoHyphenation)
             .break_words(false);
-- 
2.43.0


From d66212ed64492706758c6a82185abcad0a1908dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 17/18] fix: report the index gaps of a declaration together

---
 src/validator.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/validator.rs b/src/validator.rs
index aa453aa..726d63b 100644
--- a/src/validator.rs
+++ b/src/validator.rs
@@ -124,19 +124,32 @@ pub fn validate(
                 );
             }
 
-            // Check that all index gaps are marked as deleted.
-            for index in 0..(field_indices.len() + declaration.deleted.len()) {
-                if !field_indices.contains(&index) && !declaration.deleted.contains(&index) {
-                    errors.push(throw::<Error>(
-                        &format!(
+            // Check that all index gaps are marked as deleted. There may be many of them, so they are
+            // reported together rather than with one listing of the declaration for each.
+            let gaps = (0..(field_indices.len() + declaration.deleted.len()))
+                .filter(|index| {
+                    !field_indices.contains(index) && !declaration.deleted.contains(index)
+                })
+                .map(|index| index.to_string().code_str().to_string())
+                .collect::<Vec<_>>();
+
+            if !gaps.is_empty() {
+                errors.push(throw::<Error>(
+                    &if gaps.len() == 1 {
+                        format!(
                             "Field index gap found. Unused index {} is not marked as deleted.",
-                            index.to_string().code_str(),
-                        ),
-                        Some(source_path),
-                        Some(&listing(source_contents, declaration.source_range)),
-                        None,
-                    ));
-                }
+                            gaps[0],
+                        )
+                    } else {
+                        format!(
+                            "Field index gaps found. Unused indices {} are not marked as deleted.",
+                            gaps.join(", "),
+                        )
+                    },
+                    Some(source_path),
+                    Some(&listing(source_contents, declaration.source_range)),
+                    None,
+                ));
             }
         }
     }
-- 
2.43.0


From 674822c21b0b73a5158c82ea4b45471618090f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:52 +0000
Subject: [PATCH 18/18] fix: a schema file named like ..foo made every command
 panic

---
 src/schema_loader.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index be275d5..0f34958 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -18,19 +18,29 @@ use {
 // Convert a path to a namespace. This function will panic if the path cannot be converted into a
 // namespace (e.g., because it contains `..`).
 fn path_to_namespace(path: &Path) -> schema::Namespace {
-    let mut path = path.to_owned();
-    path.set_extension("");
+    let mut components = path
+        .components()
+        .map(|component| {
+            if let Component::Normal(component) = component {
+                component
+            } else {
+                panic!()
+            }
+        })
+        .collect::<Vec<_>>();
+
+    // Remove the extension from the last component. Note that `Path::set_extension` could turn it into
+    // something that isn't a normal component (e.g., `..foo` would become `.`).
+    if let Some(component) = components.last_mut() {
+        if let Some(file_stem) = Path::new(*component).file_stem() {
+            *component = file_stem;
+        }
+    }
 
     schema::Namespace {
-        components: path
-            .components()
-            .map(|component| {
-                if let Component::Normal(component) = component {
-                    component.to_string_lossy().to_string().as_str().into()
-                } else {
-                    panic!()
-                }
-            })
+        components: components
+            .into_iter()
+            .map(|component| component.to_string_lossy().as_ref().into())
             .collect(),
     }
 }
-- 
2.43.0

