From 5d8519ce7ed47ba2da0e082fb70574af7b5420bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 01/13] fix: report where a reduced run starts and only runs
 that were reduced

ConsecutiveCharacterReducer::modify_with_positions recorded the length of the
output instead of the byte offset of the run, a character offset past the run,
and for a run at the end of the input a mixture of bytes and characters. It
also listed runs of a single character, which are left unchanged.
---
 src/modifier/consecutive_character_reducer.rs | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 0a07671..e85148c 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -37,38 +37,42 @@ impl Modifier for ConsecutiveCharacterReducer {
     fn modify_with_positions(&self, input: &str) -> ModifiedRecord {
         let c_len = self.c.len_utf8();
         let mut counter = 0; // 何文字連続しているか
+        let mut start = (0, 0); // 連続の先頭の位置 (バイト数, 文字数)
         let mut text = String::new(); // 返却する文字列用のバッファ
         let mut positions = Vec::new(); // 変更された位置情報
         let mut buffer = [0u8; 4]; // char型から&strに変換する際に.to_string()でString型を経由するとメモリの動的確保によるオーバーヘッドがかかるので、直接&strに変換するためのバッファ
-        for (i, ch) in input.chars().enumerate() {
+        for (i, (index, ch)) in input.char_indices().enumerate() {
             if self.c == ch {
                 if counter > 0 {
                     counter += 1;
                     continue;
                 } else {
                     counter = 1;
+                    start = (index, i);
                 }
             } else if counter > 0 {
-                positions.push(Position {
-                    from: self.c.to_string().repeat(counter),
-                    to: self.c.to_string(),
-                    index: text.len(),
-                    length: c_len * counter,
-                    utf8_index: i,
-                    utf8_length: counter,
-                });
+                if counter > 1 {
+                    positions.push(Position {
+                        from: self.c.to_string().repeat(counter),
+                        to: self.c.to_string(),
+                        index: start.0,
+                        length: c_len * counter,
+                        utf8_index: start.1,
+                        utf8_length: counter,
+                    });
+                }
                 counter = 0;
             }
             text.push_str(ch.encode_utf8(&mut buffer));
         }
 
-        if counter > 0 {
+        if counter > 1 {
             positions.push(Position {
                 from: self.c.to_string().repeat(counter),
                 to: self.c.to_string(),
-                index: text.len(),
+                index: start.0,
                 length: c_len * counter,
-                utf8_index: input.len() - counter,
+                utf8_index: start.1,
                 utf8_length: counter,
             });
         }
-- 
2.43.0


From 57992e91fbfe38c9629dac3fc050399a764f5e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 02/13] fix: record byte and character offsets of a converted
 character in their own fields

CharacterConverter::modify_with_positions passed the character offset as index
and the byte offset as utf8_index, the opposite of length / utf8_length and of
the other modifiers.
---
 src/modifier/character_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 5c2c687..51ea03d 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -82,8 +82,8 @@ impl Modifier for CharacterConverter {
                     positions.push(Position::new(
                         c.to_string(),
                         to.to_string(),
-                        *c_index,
                         char_pos.utf8_indices[i],
+                        *c_index,
                         char_pos.length,
                         CharPos::UTF8_LEN,
                     ));
-- 
2.43.0


From 54f89039a3e65bead38cde737fe9c95f821bf5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 03/13] fix: list converted characters in the order in which
 they occur

The positions followed the iteration order of a HashMap, so two runs over the
same text listed them in different orders.
---
 src/modifier/character_converter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 51ea03d..c9fc89b 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -90,6 +90,8 @@ impl Modifier for CharacterConverter {
                 }
             }
         }
+        // HashMap の走査順に依存しないように出現順に並べる
+        positions.sort();
 
         ModifiedRecord::new(
             ModifierKind::CharacterConverter(self.clone()),
-- 
2.43.0


From 5f4a8d7e41631802d513a35290056e0b0914c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 04/13] fix: apply ligatures in a fixed order

LigatureTranslator applied its replacements in HashMap iteration order, so with
entries that overlap or feed each other the same text was normalized
differently from one run to the next.
---
 src/modifier/ligature_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 2b33831..c9c8dc9 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -15,7 +15,10 @@ pub struct LigatureTranslator {
 impl Modifier for LigatureTranslator {
     fn modify(&self, input: &str) -> String {
         let mut text = input.to_string();
-        for (from, to) in self.map.iter() {
+        // 置換の結果が HashMap の走査順に依存しないように並べてから適用する
+        let mut pairs = self.map.iter().collect::<Vec<_>>();
+        pairs.sort();
+        for (from, to) in pairs {
             text = text.replace(from, to);
         }
         text
-- 
2.43.0


From b17fcc16a81cff48109ad6935cb5b30dd97e12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:38 +0000
Subject: [PATCH 05/13] fix: return the input from ModifiedRecords::text when
 no modifier ran

text() unwrapped the last record, so Chanoma::new().normalize_with_positions(..)
.text() panicked, and so did normalize() with debug logging, which the command
line tool enables with -d.
---
 src/chanoma.rs  |  2 +-
 src/modifier.rs | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/chanoma.rs b/src/chanoma.rs
index e0d7ddb..efe5dc7 100644
--- a/src/chanoma.rs
+++ b/src/chanoma.rs
@@ -149,7 +149,7 @@ impl Chanoma {
             v.push(result.clone());
             text = result.text;
         }
-        ModifiedRecords::new(v)
+        ModifiedRecords::new(v, text)
     }
 
     /// 一文字から一文字の置換テーブルを定義した [Table] 構造体を使用するように [Chanoma] 構造体を初期化します。
diff --git a/src/modifier.rs b/src/modifier.rs
index 4ffb993..d6f21eb 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -49,6 +49,7 @@ pub trait ModifierFromYamlValue {
 #[derive(Debug)]
 pub struct ModifiedRecords {
     records: Vec<ModifiedRecord>,
+    text: String,
 }
 
 impl ModifiedRecords {
@@ -57,10 +58,10 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new(vec![], "".to_string());
     // ```
-    pub fn new(records: Vec<ModifiedRecord>) -> Self {
-        Self { records }
+    pub fn new(records: Vec<ModifiedRecord>, text: String) -> Self {
+        Self { records, text }
     }
 
     // [ModifiedResult] 構造体から最終結果の文字列を取得します。
@@ -68,11 +69,11 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new(vec![], "".to_string());
     // assert_eq!(modified.text(), "");
     // ```
     pub fn text(&self) -> &str {
-        &self.records.last().unwrap().text
+        &self.text
     }
 
     // [ModifiedRecords] 構造体からすべての途中経過を取得します。
@@ -80,7 +81,7 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new(vec![], "".to_string());
     // assert_eq!(modified.modified_records(), vec![]);
     // ```
     pub fn modified_records(&self) -> &Vec<ModifiedRecord> {
-- 
2.43.0


From 34d2f42989a7f383f5e4741d026e66f1621efc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 06/13] fix: return an error instead of panicking on a
 malformed configuration file

Values of an unexpected type and empty strings under items or modifiers of a
YAML file were unwrapped.
---
 src/file.rs                                   | 35 ++++++++++++++-----
 src/modifier.rs                               | 19 ++++++++++
 src/modifier/character_converter.rs           | 12 +++----
 src/modifier/character_eliminator.rs          |  8 ++---
 src/modifier/consecutive_character_reducer.rs |  7 ++--
 src/modifier/ligature_translator.rs           | 12 +++----
 src/modifier_kind.rs                          |  7 ++--
 7 files changed, 66 insertions(+), 34 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 85c3883..8c3ecf0 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -62,14 +62,18 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
-    if let Some(map) = data.get("items") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
-            if value.is_sequence() {
-                for v in value.as_sequence().unwrap().iter() {
-                    items.push(Item::new(v.as_str().unwrap(), key.as_str().unwrap()));
+    if let Some(value) = data.get("items") {
+        let map = value
+            .as_mapping()
+            .ok_or_else(|| invalid_yaml("items must be a mapping"))?;
+        for (key, value) in map.iter() {
+            let to = yaml_str(key)?;
+            if let Some(froms) = value.as_sequence() {
+                for from in froms.iter() {
+                    items.push(Item::new(yaml_str(from)?, to));
                 }
             } else {
-                items.push(Item::new(value.as_str().unwrap(), key.as_str().unwrap()));
+                items.push(Item::new(yaml_str(value)?, to));
             }
         }
     }
@@ -90,14 +94,29 @@ pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKi
     let path = path.as_ref();
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut modifiers = Vec::new();
-    if let Some(map) = data.get("modifiers") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+    if let Some(value) = data.get("modifiers") {
+        let map = value
+            .as_mapping()
+            .ok_or_else(|| invalid_yaml("modifiers must be a mapping"))?;
+        for (key, value) in map.iter() {
             modifiers.push(ModifierKind::from_yaml_key_value(key, value)?);
         }
     }
     Ok(modifiers)
 }
 
+/// YAML の値が期待した形でなかった場合のエラーを返す
+fn invalid_yaml(message: &str) -> Error {
+    Error::YamlFileLoadError(<serde_yaml::Error as serde::de::Error>::custom(message))
+}
+
+/// YAML の値から文字列を取り出す
+fn yaml_str(value: &serde_yaml::Value) -> Result<&str, Error> {
+    value
+        .as_str()
+        .ok_or_else(|| invalid_yaml("items must consist of strings"))
+}
+
 #[derive(Serialize)]
 pub struct SerializedCorr {
     items: BTreeMap<String, Vec<String>>,
diff --git a/src/modifier.rs b/src/modifier.rs
index d6f21eb..5a264fc 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -45,6 +45,25 @@ pub trait ModifierFromYamlValue {
         Self: Sized;
 }
 
+/// YAML の値から文字列を取り出す
+fn yaml_str(value: &serde_yaml::Value) -> Result<&str, Error> {
+    value
+        .as_str()
+        .ok_or_else(|| Error::ModifierKindParseError("require a string.".to_string()))
+}
+
+/// YAML の値から最初の文字を取り出す
+fn yaml_char(value: &serde_yaml::Value) -> Result<char, Error> {
+    first_char(yaml_str(value)?)
+}
+
+/// 文字列から最初の文字を取り出す
+fn first_char(s: &str) -> Result<char, Error> {
+    s.chars()
+        .next()
+        .ok_or_else(|| Error::ModifierKindParseError("require a character.".to_string()))
+}
+
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index c9fc89b..a3ec292 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{yaml_char, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -105,14 +105,10 @@ impl ModifierFromYamlValue for CharacterConverter {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_mapping()
-            .unwrap()
+            .ok_or_else(|| Error::ModifierKindParseError("require a mapping.".to_string()))?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().chars().next().unwrap();
-                let v = value.as_str().unwrap().chars().next().unwrap();
-                (k, v)
-            })
-            .collect::<HashMap<char, char>>();
+            .map(|(key, value)| Ok((yaml_char(key)?, yaml_char(value)?)))
+            .collect::<Result<HashMap<char, char>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier/character_eliminator.rs b/src/modifier/character_eliminator.rs
index 9307a40..3de89f4 100644
--- a/src/modifier/character_eliminator.rs
+++ b/src/modifier/character_eliminator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{yaml_char, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -39,10 +39,10 @@ impl ModifierFromYamlValue for CharacterEliminator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_sequence()
-            .unwrap()
+            .ok_or_else(|| Error::ModifierKindParseError("require a sequence.".to_string()))?
             .iter()
-            .map(|v| v.as_str().unwrap().chars().next().unwrap())
-            .collect::<Vec<char>>();
+            .map(yaml_char)
+            .collect::<Result<Vec<char>, Error>>()?;
         Ok(Self::from_chars(map))
     }
 }
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index e85148c..cdf08c4 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -1,6 +1,6 @@
 //! 連続する同じ文字を一つにする Modifier のモジュールです。
 
-use super::{ModifiedRecord, Modifier};
+use super::{first_char, yaml_str, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -86,15 +86,14 @@ impl Modifier for ConsecutiveCharacterReducer {
 
 impl ModifierFromYamlValue for ConsecutiveCharacterReducer {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        Self::from_str(value.as_str().unwrap())
+        Self::from_str(yaml_str(value)?)
     }
 }
 
 impl FromStr for ConsecutiveCharacterReducer {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let c = s.chars().next().unwrap();
-        Ok(Self::new(c))
+        Ok(Self::new(first_char(s)?))
     }
 }
 
diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index c9c8dc9..53bf103 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{yaml_str, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -38,14 +38,10 @@ impl ModifierFromYamlValue for LigatureTranslator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_mapping()
-            .unwrap()
+            .ok_or_else(|| Error::ModifierKindParseError("require a mapping.".to_string()))?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().to_string();
-                let v = value.as_str().unwrap().to_string();
-                (k, v)
-            })
-            .collect::<HashMap<String, String>>();
+            .map(|(key, value)| Ok((yaml_str(key)?.to_string(), yaml_str(value)?.to_string())))
+            .collect::<Result<HashMap<String, String>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 234bb84..3fc58f9 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -116,7 +116,10 @@ impl ModifierKind {
         key: &serde_yaml::Value,
         value: &serde_yaml::Value,
     ) -> Result<Self, Error> {
-        match key.as_str().unwrap() {
+        let name = key.as_str().ok_or_else(|| {
+            Error::ModifierKindParseError("a modifier name must be a string.".to_string())
+        })?;
+        match name {
             "character_converter" => Ok(Self::CharacterConverter(
                 CharacterConverter::from_yaml_value(value)?,
             )),
@@ -136,7 +139,7 @@ impl ModifierKind {
             "neologdn" => Ok(Self::Neologdn(Neologdn::from_yaml_value(value)?)),
             _ => Err(Error::ModifierKindParseError(format!(
                 "specified key {} does not exists.",
-                key.as_str().unwrap()
+                name
             ))),
         }
     }
-- 
2.43.0


From 3d3dfd4bd3c2a0710206760c65ce8f5f10377f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 07/13] fix: ignore table items with an empty side instead of
 panicking

A CSV row with an empty cell, or an Item built from an empty string, made
CharacterConverter::from_tables panic.
---
 src/modifier/character_converter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index a3ec292..8d57f9d 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -155,10 +155,10 @@ impl CharacterConverter {
         let mut items_map = HashMap::new();
         for table in tables.iter() {
             for item in table.items().iter() {
-                items_map.insert(
-                    item.from.chars().next().unwrap(),
-                    item.to.chars().next().unwrap(),
-                );
+                // 空文字列は一文字の置換として表現できないので無視する
+                if let (Some(from), Some(to)) = (item.from.chars().next(), item.to.chars().next()) {
+                    items_map.insert(from, to);
+                }
             }
         }
         Self { items_map }
-- 
2.43.0


From 08bbe091e256782b73d72f9eb3779f15e8d69af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 08/13] fix: accept every supported extension in CHANOMARC and
 reject a missing one

valid_file_path compared with the canonical spelling only, so a documented .yml
file was refused, and it unwrapped the extension, so a path without one
panicked.
---
 src/configuration.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4f1998c..76c203b 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -109,8 +109,7 @@ fn valid_file_path(path: PathBuf) -> Result<Vec<PathBuf>, Error> {
     if !path.is_file() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
-    let extension = String::from(path.extension().unwrap().to_str().unwrap());
-    if FileExtension::iter().all(|ext| ext.to_string() != extension) {
+    if FileExtension::from_path(&path).is_err() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
     Ok(vec![path])
-- 
2.43.0


From dcd23fa3ff138a43aad77358c4003948faeb1d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 09/13] fix: load the documented list form of items from a YAML
 file

README.md and examples/file/table.yaml describe items as a list of from / to
pairs, which table_from_yaml_path did not accept.
---
 src/file.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 8c3ecf0..67ffa83 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -63,17 +63,29 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
     if let Some(value) = data.get("items") {
-        let map = value
-            .as_mapping()
-            .ok_or_else(|| invalid_yaml("items must be a mapping"))?;
-        for (key, value) in map.iter() {
-            let to = yaml_str(key)?;
-            if let Some(froms) = value.as_sequence() {
-                for from in froms.iter() {
-                    items.push(Item::new(yaml_str(from)?, to));
+        if let Some(entries) = value.as_sequence() {
+            for entry in entries.iter() {
+                let from = entry
+                    .get("from")
+                    .ok_or_else(|| invalid_yaml("an item requires from"))?;
+                let to = entry
+                    .get("to")
+                    .ok_or_else(|| invalid_yaml("an item requires to"))?;
+                items.push(Item::new(yaml_str(from)?, yaml_str(to)?));
+            }
+        } else {
+            let map = value
+                .as_mapping()
+                .ok_or_else(|| invalid_yaml("items must be a mapping or a sequence"))?;
+            for (key, value) in map.iter() {
+                let to = yaml_str(key)?;
+                if let Some(froms) = value.as_sequence() {
+                    for from in froms.iter() {
+                        items.push(Item::new(yaml_str(from)?, to));
+                    }
+                } else {
+                    items.push(Item::new(yaml_str(value)?, to));
                 }
-            } else {
-                items.push(Item::new(yaml_str(value)?, to));
             }
         }
     }
-- 
2.43.0


From 62436d4e3aa8bcd5be8e36a058e44932212c0913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 10/13] fix: print a header row when exporting the preset table
 as CSV

The CSV loader skips the first row as a header, so loading the exported table
lost its first row of entries.
---
 src/bin/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/output.rs b/src/bin/output.rs
index 4fa41ec..9aaf1b5 100644
--- a/src/bin/output.rs
+++ b/src/bin/output.rs
@@ -22,7 +22,7 @@ impl Format {
         match self {
             Self::Csv => {
                 let wtr = to_csv_writer(&table.corr(), vec![]);
-                println!("{}", String::from_utf8(wtr.into_inner()?)?);
+                println!("from,to\n{}", String::from_utf8(wtr.into_inner()?)?);
             }
             Self::Yaml => {
                 println!(
-- 
2.43.0


From 63671c2f0b4adeeb1c289789597b32f8dc9fced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 11/13] fix: discover configuration files with the documented
 .yml extension

---
 src/configuration.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 76c203b..fc03e56 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -60,7 +60,7 @@ impl Configuration {
 
         Ok(exists_file_paths(
             auto_load_dirs(),
-            auto_load_paths_from_dir,
+            auto_load_paths_with_yml_from_dir,
         ))
     }
 
@@ -148,6 +148,21 @@ fn auto_load_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
         .collect()
 }
 
+/// 自動で読み込むパスに .yaml の別名である .yml のパスを加える
+#[allow(clippy::ptr_arg)]
+fn auto_load_paths_with_yml_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
+    let mut paths = Vec::new();
+    for path in auto_load_paths_from_dir(dir) {
+        let yml = path.with_extension("yml");
+        let is_yaml = path.extension().map_or(false, |ext| ext == "yaml");
+        paths.push(path);
+        if is_yaml {
+            paths.push(yml);
+        }
+    }
+    paths
+}
+
 /// 存在するパスに絞り込む
 fn exists_file_paths<F>(load_dirs: Vec<PathBuf>, expand: F) -> Vec<PathBuf>
 where
-- 
2.43.0


From 77912d5006f403ce936dddc5c16dc26840715eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 12/13] fix: correct the documented pairs of three CJK
 compatibility characters

---
 src/characters_set/cjk_compatibilities.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/characters_set/cjk_compatibilities.rs b/src/characters_set/cjk_compatibilities.rs
index a192adf..035904a 100644
--- a/src/characters_set/cjk_compatibilities.rs
+++ b/src/characters_set/cjk_compatibilities.rs
@@ -461,12 +461,12 @@ pub const SQUARE_MU_M: Correspondence<Linear> = Linear::new("\u{339B}", "µm").c
 pub const SQUARE_MM: Correspondence<Linear> = Linear::new("\u{339C}", "mm").corr(); // U+339C  ㎜  SQUARE MM   mm
 pub const SQUARE_CM: Correspondence<Linear> = Linear::new("\u{339D}", "cm").corr(); // U+339D  ㎝  SQUARE CM   cm
 pub const SQUARE_KM: Correspondence<Linear> = Linear::new("\u{339E}", "km").corr(); // U+339E  ㎞  SQUARE KM   km
-pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
+pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm2").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
 pub const SQUARE_CM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A0}", "cm2").corr(); // U+33A0  ㎠  SQUARE CM SQUARED   cm2     平方センチメートル
 pub const SQUARE_M_SQUARED: Correspondence<Linear> = Linear::new("\u{33A1}", "m2").corr(); // U+33A1  ㎡  SQUARE M SQUARED    m2  平方メートル
 pub const SQUARE_KM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A2}", "km2").corr(); // U+33A2  ㎢  SQUARE KM SQUARED   km2     平方キロメートル
 pub const SQUARE_MM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "mm3").corr(); // U+33A3  ㎣  SQUARE MM CUBED     mm3     立方ミリメートル
-pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
+pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A4}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
 pub const SQUARE_M_CUBED: Correspondence<Linear> = Linear::new("\u{33A5}", "m3").corr(); // U+33A5  ㎥  SQUARE M CUBED  m3  立方メートル
 pub const SQUARE_KM_CUBED: Correspondence<Linear> = Linear::new("\u{33A6}", "km3").corr(); // U+33A6  ㎦  SQUARE KM CUBED     km3     立方キロメートル
 pub const SQUARE_M_OVER_S: Correspondence<Linear> = Linear::new("\u{33A7}", "m/s").corr(); // U+33A7  ㎧  SQUARE M OVER S     m/s     メートル毎
@@ -508,7 +508,7 @@ pub const SQUARE_GY: Correspondence<Linear> = Linear::new("\u{33C9}", "Gy").corr
 pub const SQUARE_HA: Correspondence<Linear> = Linear::new("\u{33CA}", "ha").corr(); // U+33CA  ㏊  SQUARE HA   ha
 pub const SQUARE_HP: Correspondence<Linear> = Linear::new("\u{33CB}", "HP").corr(); // U+33CB  ㏋  SQUARE HP   HP
 pub const SQUARE_IN: Correspondence<Linear> = Linear::new("\u{33CC}", "in").corr(); // U+33CC  ㏌  SQUARE IN   in
-pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
+pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
 pub const SQUARE_KM_CAPITAL: Correspondence<Linear> = Linear::new("\u{33CE}", "KM").corr(); // U+33CE  ㏎  SQUARE KM CAPITAL   KM
 pub const SQUARE_KT: Correspondence<Linear> = Linear::new("\u{33CF}", "kt").corr(); // U+33CF  ㏏  SQUARE KT   kt
 pub const SQUARE_LM: Correspondence<Linear> = Linear::new("\u{33D0}", "lm").corr(); // U+33D0  ㏐  SQUARE LM   lm
-- 
2.43.0


From 9486daa520a6558c59808ba81787531812026375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 13/13] Guarded access to private types for the verification
 harness

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3172b26..5564563 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// The guard below is no feature of this crate: only the verification harness sets it.
+#![allow(unexpected_cfgs)]
+
 pub mod chanoma;
 pub mod characters_set;
 mod configuration;
@@ -14,3 +17,16 @@ pub use crate::chanoma::Chanoma;
 pub use corr::{Corr, Correspondence, Item, Synthesized};
 pub use position::Position;
 pub use table::{Table, TableBuilder};
+
+/// Access to the private types for the verification harness (`--cfg chanoma_verif`).
+#[cfg(chanoma_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::configuration::Configuration;
+    pub use crate::modifier::{
+        CharacterConverter, CharacterEliminator, ConsecutiveCharacterReducer,
+        DottedSpaceEliminator, LigatureTranslator, ModifiedRecord, ModifiedRecords, Modifier,
+        Neologdn, Trim,
+    };
+    pub use crate::modifier_kind::ModifierKind;
+}
-- 
2.43.0

