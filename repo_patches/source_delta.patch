From 5cc3427d3c8d41028eaa629ab72aeb04bc108fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:23 +0000
Subject: [PATCH 01/14] fix: keep the input text when normalizing without any
 stage

ModifiedRecords::text() unwrapped the last record, so an instance without
stages panicked in normalize_with_positions(..).text(), and in normalize
whenever debug logging was on (chanoma --debug without a configuration).
---
 src/chanoma.rs  |  5 +++--
 src/modifier.rs | 16 ++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/chanoma.rs b/src/chanoma.rs
index e0d7ddb..72ce175 100644
--- a/src/chanoma.rs
+++ b/src/chanoma.rs
@@ -140,7 +140,8 @@ impl Chanoma {
     /// ```
     pub fn normalize_with_positions(&self, text: &str) -> ModifiedRecords {
         let mut v = Vec::new();
-        let mut text = text.to_string();
+        let input = text;
+        let mut text = input.to_string();
         for m in self.modifiers.iter() {
             let result = m.modify_with_positions(&text);
             if log_enabled!(log::Level::Debug) {
@@ -149,7 +150,7 @@ impl Chanoma {
             v.push(result.clone());
             text = result.text;
         }
-        ModifiedRecords::new(v)
+        ModifiedRecords::new(input, v)
     }
 
     /// 一文字から一文字の置換テーブルを定義した [Table] 構造体を使用するように [Chanoma] 構造体を初期化します。
diff --git a/src/modifier.rs b/src/modifier.rs
index 4ffb993..a4559d8 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -48,6 +48,7 @@ pub trait ModifierFromYamlValue {
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
+    input: String,
     records: Vec<ModifiedRecord>,
 }
 
@@ -57,10 +58,13 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("", vec![]);
     // ```
-    pub fn new(records: Vec<ModifiedRecord>) -> Self {
-        Self { records }
+    pub fn new(input: impl Into<String>, records: Vec<ModifiedRecord>) -> Self {
+        Self {
+            input: input.into(),
+            records,
+        }
     }
 
     // [ModifiedResult] 構造体から最終結果の文字列を取得します。
@@ -68,11 +72,11 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("", vec![]);
     // assert_eq!(modified.text(), "");
     // ```
     pub fn text(&self) -> &str {
-        &self.records.last().unwrap().text
+        self.records.last().map_or(&self.input, |r| &r.text)
     }
 
     // [ModifiedRecords] 構造体からすべての途中経過を取得します。
@@ -80,7 +84,7 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("", vec![]);
     // assert_eq!(modified.modified_records(), vec![]);
     // ```
     pub fn modified_records(&self) -> &Vec<ModifiedRecord> {
-- 
2.43.0


From 26e096aa99d9929501b9b7f40d1a11e3ecd88ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 02/14] fix: report byte and character offsets of converted
 characters, in order

CharacterConverter::modify_with_positions put the character offset into
Position::index and the byte offset into utf8_index (the lengths, and the
other modifiers, have it the other way round), and listed the positions in
the random iteration order of a HashMap.
---
 src/modifier/character_converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 5c2c687..3934409 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -82,14 +82,15 @@ impl Modifier for CharacterConverter {
                     positions.push(Position::new(
                         c.to_string(),
                         to.to_string(),
-                        *c_index,
                         char_pos.utf8_indices[i],
+                        *c_index,
                         char_pos.length,
                         CharPos::UTF8_LEN,
                     ));
                 }
             }
         }
+        positions.sort();
 
         ModifiedRecord::new(
             ModifierKind::CharacterConverter(self.clone()),
-- 
2.43.0


From 69ae1f10670da23d611cb16422287817fb7a8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 03/14] fix: report where a reduced run stands in the input

ConsecutiveCharacterReducer::modify_with_positions reported offsets of the
end of the run, partly in the output text and partly as bytes minus
characters, and reported runs of length one, which it does not change.
---
 src/modifier/consecutive_character_reducer.rs | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 0a07671..53f47f6 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -37,38 +37,42 @@ impl Modifier for ConsecutiveCharacterReducer {
     fn modify_with_positions(&self, input: &str) -> ModifiedRecord {
         let c_len = self.c.len_utf8();
         let mut counter = 0; // 何文字連続しているか
+        let mut start = (0, 0); // 連続が始まった位置 (byte, 文字)
         let mut text = String::new(); // 返却する文字列用のバッファ
         let mut positions = Vec::new(); // 変更された位置情報
         let mut buffer = [0u8; 4]; // char型から&strに変換する際に.to_string()でString型を経由するとメモリの動的確保によるオーバーヘッドがかかるので、直接&strに変換するためのバッファ
-        for (i, ch) in input.chars().enumerate() {
+        for (i, (index, ch)) in input.char_indices().enumerate() {
             if self.c == ch {
                 if counter > 0 {
                     counter += 1;
                     continue;
                 } else {
                     counter = 1;
+                    start = (index, i);
+                }
+            } else {
+                if counter > 1 {
+                    positions.push(Position {
+                        from: self.c.to_string().repeat(counter),
+                        to: self.c.to_string(),
+                        index: start.0,
+                        length: c_len * counter,
+                        utf8_index: start.1,
+                        utf8_length: counter,
+                    });
                 }
-            } else if counter > 0 {
-                positions.push(Position {
-                    from: self.c.to_string().repeat(counter),
-                    to: self.c.to_string(),
-                    index: text.len(),
-                    length: c_len * counter,
-                    utf8_index: i,
-                    utf8_length: counter,
-                });
                 counter = 0;
             }
             text.push_str(ch.encode_utf8(&mut buffer));
         }
 
-        if counter > 0 {
+        if counter > 1 {
             positions.push(Position {
                 from: self.c.to_string().repeat(counter),
                 to: self.c.to_string(),
-                index: text.len(),
+                index: start.0,
                 length: c_len * counter,
-                utf8_index: input.len() - counter,
+                utf8_index: start.1,
                 utf8_length: counter,
             });
         }
-- 
2.43.0


From f4f36d3ff6a85bcc399eed77850c6cc6404ab36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 04/14] fix: apply ligatures in a fixed order

LigatureTranslator walked its HashMap in random order, so mappings whose
sequences overlap, contain or produce one another gave different results
from one instance or process to the next. Longer sequences go first now,
equally long ones in code point order.
---
 src/modifier/ligature_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 2b33831..0ca4a53 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -15,7 +15,10 @@ pub struct LigatureTranslator {
 impl Modifier for LigatureTranslator {
     fn modify(&self, input: &str) -> String {
         let mut text = input.to_string();
-        for (from, to) in self.map.iter() {
+        // HashMap の順序は不定なので、長い順・文字コード順に置換して結果を一意にする
+        let mut items = self.map.iter().collect::<Vec<_>>();
+        items.sort_by(|(a, _), (b, _)| b.len().cmp(&a.len()).then_with(|| a.cmp(b)));
+        for (from, to) in items {
             text = text.replace(from, to);
         }
         text
-- 
2.43.0


From 688cae6f86db150654c9c32770779d9dbddccf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 05/14] fix: load the documented list form of items from YAML

README.md and examples/file/table.yaml write items as a list of from/to
entries, but table_from_yaml_path panicked on anything but a mapping.
---
 src/file.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index 85c3883..9cd5457 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -62,7 +62,14 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
-    if let Some(map) = data.get("items") {
+    if let Some(list) = data.get("items").and_then(|v| v.as_sequence()) {
+        for entry in list.iter() {
+            items.push(Item::new(
+                entry["from"].as_str().unwrap(),
+                entry["to"].as_str().unwrap(),
+            ));
+        }
+    } else if let Some(map) = data.get("items") {
         for (key, value) in map.as_mapping().unwrap().iter() {
             if value.is_sequence() {
                 for v in value.as_sequence().unwrap().iter() {
-- 
2.43.0


From a62afc895fd9bbbac99a14f3785423d56b478008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 06/14] fix: report wrong-shaped YAML configurations as errors

A value of the wrong type (or an empty one where a character is needed)
under items or modifiers panicked; it is an Err now.
---
 src/file.rs                                   | 31 +++++++++++++------
 src/modifier.rs                               |  4 +++
 src/modifier/character_converter.rs           | 13 ++++----
 src/modifier/character_eliminator.rs          |  9 +++---
 src/modifier/consecutive_character_reducer.rs |  6 ++--
 src/modifier/ligature_translator.rs           | 13 ++++----
 src/modifier_kind.rs                          |  7 +++--
 7 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 9cd5457..85ca808 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -4,7 +4,7 @@ use super::corr::{Corr, Correspondence, Item, Synthesized};
 use super::modifier_kind::ModifierKind;
 use super::table::{Origin, Table};
 use crate::error::Error;
-use serde::Serialize;
+use serde::{de::Error as _, Serialize};
 use std::collections::BTreeMap;
 use std::fs::File;
 use std::io::Write;
@@ -51,6 +51,18 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
     wtr
 }
 
+fn yaml_str(value: Option<&serde_yaml::Value>) -> Result<&str, Error> {
+    value
+        .and_then(|v| v.as_str())
+        .ok_or_else(|| serde_yaml::Error::custom("a string is required.").into())
+}
+
+fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Mapping, Error> {
+    value
+        .as_mapping()
+        .ok_or_else(|| serde_yaml::Error::custom("a mapping is required.").into())
+}
+
 /// 設定ファイルの YAML ファイルのパスから置換テーブルを生成する関数です。
 ///
 /// ```
@@ -65,18 +77,19 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     if let Some(list) = data.get("items").and_then(|v| v.as_sequence()) {
         for entry in list.iter() {
             items.push(Item::new(
-                entry["from"].as_str().unwrap(),
-                entry["to"].as_str().unwrap(),
+                yaml_str(entry.get("from"))?,
+                yaml_str(entry.get("to"))?,
             ));
         }
     } else if let Some(map) = data.get("items") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
-            if value.is_sequence() {
-                for v in value.as_sequence().unwrap().iter() {
-                    items.push(Item::new(v.as_str().unwrap(), key.as_str().unwrap()));
+        for (key, value) in yaml_mapping(map)?.iter() {
+            let to = yaml_str(Some(key))?;
+            if let Some(froms) = value.as_sequence() {
+                for v in froms.iter() {
+                    items.push(Item::new(yaml_str(Some(v))?, to));
                 }
             } else {
-                items.push(Item::new(value.as_str().unwrap(), key.as_str().unwrap()));
+                items.push(Item::new(yaml_str(Some(value))?, to));
             }
         }
     }
@@ -98,7 +111,7 @@ pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKi
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+        for (key, value) in yaml_mapping(map)?.iter() {
             modifiers.push(ModifierKind::from_yaml_key_value(key, value)?);
         }
     }
diff --git a/src/modifier.rs b/src/modifier.rs
index a4559d8..5503873 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -39,6 +39,10 @@ impl ModifiedRecord {
     }
 }
 
+fn invalid_value() -> Error {
+    Error::ModifierKindParseError("specified value is invalid.".to_string())
+}
+
 pub trait ModifierFromYamlValue {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error>
     where
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 3934409..2e71cb8 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{invalid_value, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -104,14 +104,15 @@ impl ModifierFromYamlValue for CharacterConverter {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_mapping()
-            .unwrap()
+            .ok_or_else(invalid_value)?
             .iter()
             .map(|(key, value)| {
-                let k = key.as_str().unwrap().chars().next().unwrap();
-                let v = value.as_str().unwrap().chars().next().unwrap();
-                (k, v)
+                let k = key.as_str()?.chars().next()?;
+                let v = value.as_str()?.chars().next()?;
+                Some((k, v))
             })
-            .collect::<HashMap<char, char>>();
+            .collect::<Option<HashMap<char, char>>>()
+            .ok_or_else(invalid_value)?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier/character_eliminator.rs b/src/modifier/character_eliminator.rs
index 9307a40..9350e6d 100644
--- a/src/modifier/character_eliminator.rs
+++ b/src/modifier/character_eliminator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{invalid_value, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -39,10 +39,11 @@ impl ModifierFromYamlValue for CharacterEliminator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_sequence()
-            .unwrap()
+            .ok_or_else(invalid_value)?
             .iter()
-            .map(|v| v.as_str().unwrap().chars().next().unwrap())
-            .collect::<Vec<char>>();
+            .map(|v| v.as_str()?.chars().next())
+            .collect::<Option<Vec<char>>>()
+            .ok_or_else(invalid_value)?;
         Ok(Self::from_chars(map))
     }
 }
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 53f47f6..8df9211 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -1,6 +1,6 @@
 //! 連続する同じ文字を一つにする Modifier のモジュールです。
 
-use super::{ModifiedRecord, Modifier};
+use super::{invalid_value, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -86,14 +86,14 @@ impl Modifier for ConsecutiveCharacterReducer {
 
 impl ModifierFromYamlValue for ConsecutiveCharacterReducer {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        Self::from_str(value.as_str().unwrap())
+        Self::from_str(value.as_str().ok_or_else(invalid_value)?)
     }
 }
 
 impl FromStr for ConsecutiveCharacterReducer {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let c = s.chars().next().unwrap();
+        let c = s.chars().next().ok_or_else(invalid_value)?;
         Ok(Self::new(c))
     }
 }
diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 0ca4a53..e5e4338 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{invalid_value, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -38,14 +38,15 @@ impl ModifierFromYamlValue for LigatureTranslator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_mapping()
-            .unwrap()
+            .ok_or_else(invalid_value)?
             .iter()
             .map(|(key, value)| {
-                let k = key.as_str().unwrap().to_string();
-                let v = value.as_str().unwrap().to_string();
-                (k, v)
+                let k = key.as_str()?.to_string();
+                let v = value.as_str()?.to_string();
+                Some((k, v))
             })
-            .collect::<HashMap<String, String>>();
+            .collect::<Option<HashMap<String, String>>>()
+            .ok_or_else(invalid_value)?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 234bb84..04b6b52 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -116,7 +116,10 @@ impl ModifierKind {
         key: &serde_yaml::Value,
         value: &serde_yaml::Value,
     ) -> Result<Self, Error> {
-        match key.as_str().unwrap() {
+        let key = key.as_str().ok_or_else(|| {
+            Error::ModifierKindParseError("specified key is not a string.".to_string())
+        })?;
+        match key {
             "character_converter" => Ok(Self::CharacterConverter(
                 CharacterConverter::from_yaml_value(value)?,
             )),
@@ -136,7 +139,7 @@ impl ModifierKind {
             "neologdn" => Ok(Self::Neologdn(Neologdn::from_yaml_value(value)?)),
             _ => Err(Error::ModifierKindParseError(format!(
                 "specified key {} does not exists.",
-                key.as_str().unwrap()
+                key
             ))),
         }
     }
-- 
2.43.0


From a53b5e35306b6d5457ee6584b1783b11de63f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 07/14] fix: ignore table items without a source or target
 character

CharacterConverter::from_tables panicked on them, so a CSV configuration
with an empty field (a line such as "a,") crashed. They are skipped now, as
CharacterConverter::from_str does.
---
 src/modifier/character_converter.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 2e71cb8..e38f0db 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -159,10 +159,9 @@ impl CharacterConverter {
         let mut items_map = HashMap::new();
         for table in tables.iter() {
             for item in table.items().iter() {
-                items_map.insert(
-                    item.from.chars().next().unwrap(),
-                    item.to.chars().next().unwrap(),
-                );
+                if let (Some(from), Some(to)) = (item.from.chars().next(), item.to.chars().next()) {
+                    items_map.insert(from, to);
+                }
             }
         }
         Self { items_map }
-- 
2.43.0


From 15948bb2e3299babe4d618b7f97a5e83bd6323d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 08/14] fix: accept .yml and report a missing extension in
 CHANOMARC

valid_file_path panicked on a path without an (UTF-8) extension and
rejected the .yml files that README.md documents and from_path loads.
---
 src/configuration.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4f1998c..c94b8c9 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -109,10 +109,7 @@ fn valid_file_path(path: PathBuf) -> Result<Vec<PathBuf>, Error> {
     if !path.is_file() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
-    let extension = String::from(path.extension().unwrap().to_str().unwrap());
-    if FileExtension::iter().all(|ext| ext.to_string() != extension) {
-        return Err(crate::error::Error::RcFileLoadError(path));
-    }
+    FileExtension::from_path(&path)?;
     Ok(vec![path])
 }
 
-- 
2.43.0


From 34579baeb329ab76959199e60e6501b8516eae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 09/14] fix: find chanomarc.yml and .chanomarc.yml
 automatically

README.md lists .yml among the extensions of automatically loaded files,
but only .csv and .yaml were looked for.
---
 src/configuration.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index c94b8c9..4c7348c 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -58,10 +58,12 @@ impl Configuration {
             return valid_file_path(path);
         }
 
-        Ok(exists_file_paths(
-            auto_load_dirs(),
-            auto_load_paths_from_dir,
-        ))
+        Ok(exists_file_paths(auto_load_dirs(), |dir| {
+            auto_load_paths_from_dir(dir)
+                .into_iter()
+                .flat_map(with_yml_path)
+                .collect()
+        }))
     }
 
     fn load_items_to_character_converter(
@@ -146,6 +148,14 @@ fn auto_load_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
         .collect()
 }
 
+/// .yaml のパスに同名の .yml のパスを補う
+fn with_yml_path(path: PathBuf) -> Vec<PathBuf> {
+    match path.extension() {
+        Some(ext) if ext == "yaml" => vec![path.clone(), path.with_extension("yml")],
+        _ => vec![path],
+    }
+}
+
 /// 存在するパスに絞り込む
 fn exists_file_paths<F>(load_dirs: Vec<PathBuf>, expand: F) -> Vec<PathBuf>
 where
-- 
2.43.0


From f81e7ae7ba2f3e353fb23cce346e5665378690ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 10/14] fix: print a header line in the CSV output of the
 preset

The first line of a CSV table is a header when it is loaded, so loading
what the tool printed lost the first pair (ideographic space to space).
---
 src/bin/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/output.rs b/src/bin/output.rs
index 4fa41ec..ef85943 100644
--- a/src/bin/output.rs
+++ b/src/bin/output.rs
@@ -22,6 +22,8 @@ impl Format {
         match self {
             Self::Csv => {
                 let wtr = to_csv_writer(&table.corr(), vec![]);
+                // 読み込み時に最初の行はヘッダーとして扱われる
+                println!("from,to");
                 println!("{}", String::from_utf8(wtr.into_inner()?)?);
             }
             Self::Yaml => {
-- 
2.43.0


From f2c6cadb7df7c7d3ee3e47574fe80c7a10bc6fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:39 +0000
Subject: [PATCH 11/14] fix: three wrong pairs of the CJK compatibility set

SQUARE MM SQUARED lost its 2, SQUARE CM CUBED was listed under SQUARE MM
CUBED's code point (so U+33A3 had two targets and U+33A4 none) and SQUARE
KK was cut to K., against the comment on each line.
---
 src/characters_set/cjk_compatibilities.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/characters_set/cjk_compatibilities.rs b/src/characters_set/cjk_compatibilities.rs
index a192adf..035904a 100644
--- a/src/characters_set/cjk_compatibilities.rs
+++ b/src/characters_set/cjk_compatibilities.rs
@@ -461,12 +461,12 @@ pub const SQUARE_MU_M: Correspondence<Linear> = Linear::new("\u{339B}", "µm").c
 pub const SQUARE_MM: Correspondence<Linear> = Linear::new("\u{339C}", "mm").corr(); // U+339C  ㎜  SQUARE MM   mm
 pub const SQUARE_CM: Correspondence<Linear> = Linear::new("\u{339D}", "cm").corr(); // U+339D  ㎝  SQUARE CM   cm
 pub const SQUARE_KM: Correspondence<Linear> = Linear::new("\u{339E}", "km").corr(); // U+339E  ㎞  SQUARE KM   km
-pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
+pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm2").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
 pub const SQUARE_CM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A0}", "cm2").corr(); // U+33A0  ㎠  SQUARE CM SQUARED   cm2     平方センチメートル
 pub const SQUARE_M_SQUARED: Correspondence<Linear> = Linear::new("\u{33A1}", "m2").corr(); // U+33A1  ㎡  SQUARE M SQUARED    m2  平方メートル
 pub const SQUARE_KM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A2}", "km2").corr(); // U+33A2  ㎢  SQUARE KM SQUARED   km2     平方キロメートル
 pub const SQUARE_MM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "mm3").corr(); // U+33A3  ㎣  SQUARE MM CUBED     mm3     立方ミリメートル
-pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
+pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A4}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
 pub const SQUARE_M_CUBED: Correspondence<Linear> = Linear::new("\u{33A5}", "m3").corr(); // U+33A5  ㎥  SQUARE M CUBED  m3  立方メートル
 pub const SQUARE_KM_CUBED: Correspondence<Linear> = Linear::new("\u{33A6}", "km3").corr(); // U+33A6  ㎦  SQUARE KM CUBED     km3     立方キロメートル
 pub const SQUARE_M_OVER_S: Correspondence<Linear> = Linear::new("\u{33A7}", "m/s").corr(); // U+33A7  ㎧  SQUARE M OVER S     m/s     メートル毎
@@ -508,7 +508,7 @@ pub const SQUARE_GY: Correspondence<Linear> = Linear::new("\u{33C9}", "Gy").corr
 pub const SQUARE_HA: Correspondence<Linear> = Linear::new("\u{33CA}", "ha").corr(); // U+33CA  ㏊  SQUARE HA   ha
 pub const SQUARE_HP: Correspondence<Linear> = Linear::new("\u{33CB}", "HP").corr(); // U+33CB  ㏋  SQUARE HP   HP
 pub const SQUARE_IN: Correspondence<Linear> = Linear::new("\u{33CC}", "in").corr(); // U+33CC  ㏌  SQUARE IN   in
-pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
+pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
 pub const SQUARE_KM_CAPITAL: Correspondence<Linear> = Linear::new("\u{33CE}", "KM").corr(); // U+33CE  ㏎  SQUARE KM CAPITAL   KM
 pub const SQUARE_KT: Correspondence<Linear> = Linear::new("\u{33CF}", "kt").corr(); // U+33CF  ㏏  SQUARE KT   kt
 pub const SQUARE_LM: Correspondence<Linear> = Linear::new("\u{33D0}", "lm").corr(); // U+33D0  ㏐  SQUARE LM   lm
-- 
2.43.0


From 2f6ef31b25080122486020faa47d8b485f60a9b3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 12/14] fix: use CHANOMARC even if it is not valid UTF-8

---
 src/configuration.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4c7348c..a07fa22 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -99,11 +99,9 @@ impl Configuration {
 
 /// 環境変数が指定されていたらパスを返す
 fn file_path_from_env(env_name: &str) -> Option<PathBuf> {
-    if let Ok(path) = env::var(env_name) {
-        // Configuration::ENV_NAME
-        return Some(PathBuf::from(path));
-    }
-    None
+    // Configuration::ENV_NAME
+    // パスは UTF-8 とは限らない
+    env::var_os(env_name).map(PathBuf::from)
 }
 
 /// 指定したファイルが設定ファイルとして使用可能であればパス情報を返す
-- 
2.43.0


From 0b111367f6feef933f747f2ca49f8b9b0d12b300 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 13/14] fix: ignore a byte order mark in a YAML configuration

---
 src/file.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 85ca808..a92ae9b 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,7 +6,7 @@ use super::table::{Origin, Table};
 use crate::error::Error;
 use serde::{de::Error as _, Serialize};
 use std::collections::BTreeMap;
-use std::fs::File;
+use std::fs;
 use std::io::Write;
 use std::path::Path;
 
@@ -51,6 +51,13 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
     wtr
 }
 
+/// BOM 付きのファイルも読み込めるようにする
+fn yaml_from_path(path: &Path) -> Result<serde_yaml::Value, Error> {
+    let bytes = fs::read(path)?;
+    let bytes = bytes.strip_prefix("\u{feff}".as_bytes()).unwrap_or(&bytes);
+    Ok(serde_yaml::from_slice(bytes)?)
+}
+
 fn yaml_str(value: Option<&serde_yaml::Value>) -> Result<&str, Error> {
     value
         .and_then(|v| v.as_str())
@@ -72,7 +79,7 @@ fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Mapping, Error
 /// ```
 pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    let data = yaml_from_path(path)?;
     let mut items = Vec::new();
     if let Some(list) = data.get("items").and_then(|v| v.as_sequence()) {
         for entry in list.iter() {
@@ -108,7 +115,7 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
 /// ```
 pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKind>, Error> {
     let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    let data = yaml_from_path(path)?;
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers") {
         for (key, value) in yaml_mapping(map)?.iter() {
-- 
2.43.0


From 557c31bc351aacfb8d6a59010fb7013e9843334c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 14/14] fix: report a YAML configuration that is no mapping as
 an error

---
 src/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index a92ae9b..369e93e 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -55,7 +55,9 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
 fn yaml_from_path(path: &Path) -> Result<serde_yaml::Value, Error> {
     let bytes = fs::read(path)?;
     let bytes = bytes.strip_prefix("\u{feff}".as_bytes()).unwrap_or(&bytes);
-    Ok(serde_yaml::from_slice(bytes)?)
+    let data = serde_yaml::from_slice(bytes)?;
+    yaml_mapping(&data)?;
+    Ok(data)
 }
 
 fn yaml_str(value: Option<&serde_yaml::Value>) -> Result<&str, Error> {
-- 
2.43.0

