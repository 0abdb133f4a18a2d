From 463ad7022fb4b654f26dadc90b063ca918c0928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 01/12] fix: neologdn mode eliminates spaces and tildes before
 reducing long vowel marks

---
 src/modifier/neologdn.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modifier/neologdn.rs b/src/modifier/neologdn.rs
index 3fcfdaf..e07c325 100644
--- a/src/modifier/neologdn.rs
+++ b/src/modifier/neologdn.rs
@@ -23,21 +23,22 @@ pub struct Neologdn {
 impl Modifier for Neologdn {
     fn modify(&self, input: &str) -> String {
         let text = self.character_converter.modify(input);
-        let text = self.consecutive.modify(&text);
         let text = self.space_eliminater.modify(&text);
         let text = self.character_eliminator.modify(&text);
+        let text = self.consecutive.modify(&text);
         let text = self.ligature_translator.modify(&text);
         self.space_eliminater.modify(&text)
     }
 
     fn modify_with_positions(&self, input: &str) -> ModifiedRecord {
         let result = self.character_converter.modify_with_positions(input);
-        let result = self.consecutive.modify_with_positions(&result.text);
         let result = self.space_eliminater.modify_with_positions(&result.text);
         let result = self
             .character_eliminator
             .modify_with_positions(&result.text);
+        let result = self.consecutive.modify_with_positions(&result.text);
         let result = self.ligature_translator.modify_with_positions(&result.text);
+        let result = self.space_eliminater.modify_with_positions(&result.text);
         ModifiedRecord::new(
             ModifierKind::Neologdn(self.clone()),
             result.text,
-- 
2.43.0


From d2783a44c55c1c9c817c1353ef51b59d60a00b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 02/12] fix: converter positions give byte offset as index and
 character offset as utf8_index, in text order

---
 src/modifier/character_converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 5c2c687..3934409 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -82,14 +82,15 @@ impl Modifier for CharacterConverter {
                     positions.push(Position::new(
                         c.to_string(),
                         to.to_string(),
-                        *c_index,
                         char_pos.utf8_indices[i],
+                        *c_index,
                         char_pos.length,
                         CharPos::UTF8_LEN,
                     ));
                 }
             }
         }
+        positions.sort();
 
         ModifiedRecord::new(
             ModifierKind::CharacterConverter(self.clone()),
-- 
2.43.0


From fd211fdbfd020c44462b704fe2755effe1ce5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 03/12] fix: reducer positions give where the run starts in the
 input

---
 src/modifier/consecutive_character_reducer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 0a07671..5dac308 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -40,7 +40,9 @@ impl Modifier for ConsecutiveCharacterReducer {
         let mut text = String::new(); // 返却する文字列用のバッファ
         let mut positions = Vec::new(); // 変更された位置情報
         let mut buffer = [0u8; 4]; // char型から&strに変換する際に.to_string()でString型を経由するとメモリの動的確保によるオーバーヘッドがかかるので、直接&strに変換するためのバッファ
-        for (i, ch) in input.chars().enumerate() {
+        let mut utf8_len = 0; // 入力の文字数
+        for (utf8_index, (index, ch)) in input.char_indices().enumerate() {
+            utf8_len = utf8_index + 1;
             if self.c == ch {
                 if counter > 0 {
                     counter += 1;
@@ -52,9 +54,9 @@ impl Modifier for ConsecutiveCharacterReducer {
                 positions.push(Position {
                     from: self.c.to_string().repeat(counter),
                     to: self.c.to_string(),
-                    index: text.len(),
+                    index: index - c_len * counter,
                     length: c_len * counter,
-                    utf8_index: i,
+                    utf8_index: utf8_index - counter,
                     utf8_length: counter,
                 });
                 counter = 0;
@@ -66,9 +68,9 @@ impl Modifier for ConsecutiveCharacterReducer {
             positions.push(Position {
                 from: self.c.to_string().repeat(counter),
                 to: self.c.to_string(),
-                index: text.len(),
+                index: input.len() - c_len * counter,
                 length: c_len * counter,
-                utf8_index: input.len() - counter,
+                utf8_index: utf8_len - counter,
                 utf8_length: counter,
             });
         }
-- 
2.43.0


From 82800888adb518838264b93a45610713326ab783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 04/12] fix: normalisation with positions of an empty pipeline
 keeps the text instead of panicking

---
 src/chanoma.rs  |  5 +++--
 src/modifier.rs | 16 ++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/chanoma.rs b/src/chanoma.rs
index e0d7ddb..69ee0cb 100644
--- a/src/chanoma.rs
+++ b/src/chanoma.rs
@@ -140,7 +140,8 @@ impl Chanoma {
     /// ```
     pub fn normalize_with_positions(&self, text: &str) -> ModifiedRecords {
         let mut v = Vec::new();
-        let mut text = text.to_string();
+        let input = text.to_string();
+        let mut text = input.clone();
         for m in self.modifiers.iter() {
             let result = m.modify_with_positions(&text);
             if log_enabled!(log::Level::Debug) {
@@ -149,7 +150,7 @@ impl Chanoma {
             v.push(result.clone());
             text = result.text;
         }
-        ModifiedRecords::new(v)
+        ModifiedRecords::new(input, v)
     }
 
     /// 一文字から一文字の置換テーブルを定義した [Table] 構造体を使用するように [Chanoma] 構造体を初期化します。
diff --git a/src/modifier.rs b/src/modifier.rs
index 4ffb993..ae964d3 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -48,6 +48,7 @@ pub trait ModifierFromYamlValue {
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
+    input: String,
     records: Vec<ModifiedRecord>,
 }
 
@@ -57,10 +58,10 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("".to_string(), vec![]);
     // ```
-    pub fn new(records: Vec<ModifiedRecord>) -> Self {
-        Self { records }
+    pub fn new(input: String, records: Vec<ModifiedRecord>) -> Self {
+        Self { input, records }
     }
 
     // [ModifiedResult] 構造体から最終結果の文字列を取得します。
@@ -68,11 +69,14 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("".to_string(), vec![]);
     // assert_eq!(modified.text(), "");
     // ```
     pub fn text(&self) -> &str {
-        &self.records.last().unwrap().text
+        match self.records.last() {
+            Some(record) => &record.text,
+            None => &self.input,
+        }
     }
 
     // [ModifiedRecords] 構造体からすべての途中経過を取得します。
@@ -80,7 +84,7 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("".to_string(), vec![]);
     // assert_eq!(modified.modified_records(), vec![]);
     // ```
     pub fn modified_records(&self) -> &Vec<ModifiedRecord> {
-- 
2.43.0


From 7e22a010d8d7820bca199c59745b9346f3697866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 05/12] fix: ligatures are replaced in a fixed order, not in
 the map's iteration order

---
 src/modifier/ligature_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 2b33831..d8adca2 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -15,7 +15,10 @@ pub struct LigatureTranslator {
 impl Modifier for LigatureTranslator {
     fn modify(&self, input: &str) -> String {
         let mut text = input.to_string();
-        for (from, to) in self.map.iter() {
+        // HashMap の走査順に結果が左右されないように、長いものから順に置換する
+        let mut ligatures = self.map.iter().collect::<Vec<(&String, &String)>>();
+        ligatures.sort_by(|(a, _), (b, _)| b.len().cmp(&a.len()).then_with(|| a.cmp(b)));
+        for (from, to) in ligatures {
             text = text.replace(from, to);
         }
         text
-- 
2.43.0


From 233ed7c51fa962bd7ecc3dcefc03753a72791206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 06/12] fix: a file named by CHANOMARC may end in .yml, and an
 unusable name is an error instead of a panic

---
 src/configuration.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4f1998c..5f16067 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -97,7 +97,7 @@ impl Configuration {
 
 /// 環境変数が指定されていたらパスを返す
 fn file_path_from_env(env_name: &str) -> Option<PathBuf> {
-    if let Ok(path) = env::var(env_name) {
+    if let Some(path) = env::var_os(env_name) {
         // Configuration::ENV_NAME
         return Some(PathBuf::from(path));
     }
@@ -109,8 +109,7 @@ fn valid_file_path(path: PathBuf) -> Result<Vec<PathBuf>, Error> {
     if !path.is_file() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
-    let extension = String::from(path.extension().unwrap().to_str().unwrap());
-    if FileExtension::iter().all(|ext| ext.to_string() != extension) {
+    if FileExtension::from_path(&path).is_err() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
     Ok(vec![path])
-- 
2.43.0


From df73322eaca00ba9e54b145e7650f308dfc9fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 07/12] fix: start-up configuration finds .yml files and loads
 a directory once when HOME is the current directory

---
 src/configuration.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 5f16067..085ef27 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -5,6 +5,7 @@ use super::modifier_kind::ModifierKind;
 use crate::error::Error;
 use log::log_enabled;
 use std::env;
+use std::ffi::OsStr;
 use std::path::{Path, PathBuf};
 use strum::IntoEnumIterator;
 
@@ -58,10 +59,20 @@ impl Configuration {
             return valid_file_path(path);
         }
 
-        Ok(exists_file_paths(
-            auto_load_dirs(),
-            auto_load_paths_from_dir,
-        ))
+        // ディレクトリが重複している場合は一度だけロードする
+        let mut load_dirs: Vec<PathBuf> = Vec::new();
+        for dir in auto_load_dirs() {
+            if load_dirs.iter().all(|d| !is_same_dir(d, &dir)) {
+                load_dirs.push(dir);
+            }
+        }
+
+        Ok(exists_file_paths(load_dirs, |dir| {
+            auto_load_paths_from_dir(dir)
+                .into_iter()
+                .flat_map(with_alternative_extension)
+                .collect()
+        }))
     }
 
     fn load_items_to_character_converter(
@@ -148,6 +159,24 @@ fn auto_load_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
         .collect()
 }
 
+/// .yaml のパスであれば .yml のパスも候補に加える
+fn with_alternative_extension(path: PathBuf) -> Vec<PathBuf> {
+    if path.extension() == Some(OsStr::new("yaml")) {
+        let yml = path.with_extension("yml");
+        vec![path, yml]
+    } else {
+        vec![path]
+    }
+}
+
+/// 同じディレクトリを指すパスかどうか
+fn is_same_dir(a: &Path, b: &Path) -> bool {
+    match (a.canonicalize(), b.canonicalize()) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => a == b,
+    }
+}
+
 /// 存在するパスに絞り込む
 fn exists_file_paths<F>(load_dirs: Vec<PathBuf>, expand: F) -> Vec<PathBuf>
 where
-- 
2.43.0


From d524f5914142739b3ac8902626901854fa224b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 08/12] fix: YAML items load as the documented list of from and
 to, and malformed items are an error instead of a panic

---
 src/file.rs | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 85c3883..b1135c6 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -5,6 +5,7 @@ use super::modifier_kind::ModifierKind;
 use super::table::{Origin, Table};
 use crate::error::Error;
 use serde::Serialize;
+use serde_yaml::Value;
 use std::collections::BTreeMap;
 use std::fs::File;
 use std::io::Write;
@@ -60,17 +61,33 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
 /// ```
 pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    let data: Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
     if let Some(map) = data.get("items") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
-            if value.is_sequence() {
-                for v in value.as_sequence().unwrap().iter() {
-                    items.push(Item::new(v.as_str().unwrap(), key.as_str().unwrap()));
+        match map {
+            // - from: "a"
+            //   to: "A"
+            Value::Sequence(seq) => {
+                for v in seq.iter() {
+                    items.push(Item::new(item_str(v.get("from"))?, item_str(v.get("to"))?));
+                }
+            }
+            // A: a
+            // B: [b, ｂ]
+            Value::Mapping(map) => {
+                for (key, value) in map.iter() {
+                    let to = item_str(Some(key))?;
+                    match value {
+                        Value::Sequence(seq) => {
+                            for v in seq.iter() {
+                                items.push(Item::new(item_str(Some(v))?, to));
+                            }
+                        }
+                        v => items.push(Item::new(item_str(Some(v))?, to)),
+                    }
                 }
-            } else {
-                items.push(Item::new(value.as_str().unwrap(), key.as_str().unwrap()));
             }
+            _ => return Err(invalid_yaml("items must be a sequence or a mapping")),
         }
     }
     Ok(Table::from_corr(
@@ -79,6 +96,16 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     ))
 }
 
+fn invalid_yaml(message: &str) -> Error {
+    <serde_yaml::Error as serde::de::Error>::custom(message).into()
+}
+
+fn item_str(value: Option<&Value>) -> Result<&str, Error> {
+    value
+        .and_then(|v| v.as_str())
+        .ok_or_else(|| invalid_yaml("from and to of items must be strings"))
+}
+
 /// 設定ファイルの YAML ファイルのパスから Modifier を生成する関数です。
 ///
 /// ```
@@ -88,7 +115,7 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
 /// ```
 pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKind>, Error> {
     let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    let data: Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers") {
         for (key, value) in map.as_mapping().unwrap().iter() {
-- 
2.43.0


From f31c54791478f3a3916315e265e26539d887d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 09/12] fix: malformed modifiers in a YAML file are an error
 instead of a panic

---
 src/file.rs                                   |  5 ++++-
 src/modifier.rs                               |  8 ++++++++
 src/modifier/character_converter.rs           | 12 ++++--------
 src/modifier/character_eliminator.rs          |  8 ++++----
 src/modifier/consecutive_character_reducer.rs |  9 ++++++---
 src/modifier/ligature_translator.rs           | 11 +++++------
 src/modifier_kind.rs                          |  7 +++++--
 7 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index b1135c6..8c7a712 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -118,7 +118,10 @@ pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKi
     let data: Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+        let map = map
+            .as_mapping()
+            .ok_or_else(|| invalid_yaml("modifiers must be a mapping"))?;
+        for (key, value) in map.iter() {
             modifiers.push(ModifierKind::from_yaml_key_value(key, value)?);
         }
     }
diff --git a/src/modifier.rs b/src/modifier.rs
index ae964d3..ea3b8f9 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -45,6 +45,14 @@ pub trait ModifierFromYamlValue {
         Self: Sized;
 }
 
+/// 設定値の最初の一文字を返します。
+fn first_char(value: &serde_yaml::Value) -> Result<char, Error> {
+    value
+        .as_str()
+        .and_then(|s| s.chars().next())
+        .ok_or_else(|| Error::ModifierKindParseError("require character.".to_string()))
+}
+
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 3934409..59fda54 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -1,6 +1,6 @@
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
-use crate::modifier::ModifierFromYamlValue;
+use crate::modifier::{first_char, ModifierFromYamlValue};
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
 use crate::table::Table;
@@ -104,14 +104,10 @@ impl ModifierFromYamlValue for CharacterConverter {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_mapping()
-            .unwrap()
+            .ok_or_else(|| Error::ModifierKindParseError("require mapping.".to_string()))?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().chars().next().unwrap();
-                let v = value.as_str().unwrap().chars().next().unwrap();
-                (k, v)
-            })
-            .collect::<HashMap<char, char>>();
+            .map(|(key, value)| Ok((first_char(key)?, first_char(value)?)))
+            .collect::<Result<HashMap<char, char>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier/character_eliminator.rs b/src/modifier/character_eliminator.rs
index 9307a40..7bc4d52 100644
--- a/src/modifier/character_eliminator.rs
+++ b/src/modifier/character_eliminator.rs
@@ -1,6 +1,6 @@
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
-use crate::modifier::ModifierFromYamlValue;
+use crate::modifier::{first_char, ModifierFromYamlValue};
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
 use std::collections::HashSet;
@@ -39,10 +39,10 @@ impl ModifierFromYamlValue for CharacterEliminator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_sequence()
-            .unwrap()
+            .ok_or_else(|| Error::ModifierKindParseError("require sequence.".to_string()))?
             .iter()
-            .map(|v| v.as_str().unwrap().chars().next().unwrap())
-            .collect::<Vec<char>>();
+            .map(first_char)
+            .collect::<Result<Vec<char>, Error>>()?;
         Ok(Self::from_chars(map))
     }
 }
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 5dac308..48fe73b 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -2,7 +2,7 @@
 
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
-use crate::modifier::ModifierFromYamlValue;
+use crate::modifier::{first_char, ModifierFromYamlValue};
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
 use std::str::FromStr;
@@ -84,14 +84,17 @@ impl Modifier for ConsecutiveCharacterReducer {
 
 impl ModifierFromYamlValue for ConsecutiveCharacterReducer {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        Self::from_str(value.as_str().unwrap())
+        Ok(Self::new(first_char(value)?))
     }
 }
 
 impl FromStr for ConsecutiveCharacterReducer {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let c = s.chars().next().unwrap();
+        let c = s
+            .chars()
+            .next()
+            .ok_or_else(|| Error::ModifierKindParseError("require value.".to_string()))?;
         Ok(Self::new(c))
     }
 }
diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index d8adca2..110f0f7 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -38,14 +38,13 @@ impl ModifierFromYamlValue for LigatureTranslator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_mapping()
-            .unwrap()
+            .ok_or_else(|| Error::ModifierKindParseError("require mapping.".to_string()))?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().to_string();
-                let v = value.as_str().unwrap().to_string();
-                (k, v)
+            .map(|(key, value)| match (key.as_str(), value.as_str()) {
+                (Some(k), Some(v)) => Ok((k.to_string(), v.to_string())),
+                _ => Err(Error::ModifierKindParseError("require string.".to_string())),
             })
-            .collect::<HashMap<String, String>>();
+            .collect::<Result<HashMap<String, String>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 234bb84..0bff5d6 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -116,7 +116,10 @@ impl ModifierKind {
         key: &serde_yaml::Value,
         value: &serde_yaml::Value,
     ) -> Result<Self, Error> {
-        match key.as_str().unwrap() {
+        let key = key.as_str().ok_or_else(|| {
+            Error::ModifierKindParseError("modifier name must be a string.".to_string())
+        })?;
+        match key {
             "character_converter" => Ok(Self::CharacterConverter(
                 CharacterConverter::from_yaml_value(value)?,
             )),
@@ -136,7 +139,7 @@ impl ModifierKind {
             "neologdn" => Ok(Self::Neologdn(Neologdn::from_yaml_value(value)?)),
             _ => Err(Error::ModifierKindParseError(format!(
                 "specified key {} does not exists.",
-                key.as_str().unwrap()
+                key
             ))),
         }
     }
-- 
2.43.0


From 17ef140840adf4ceab613d5c7a76281f949dddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 10/12] fix: table entries with an empty original or
 replacement are skipped instead of a panic

---
 src/modifier/character_converter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 59fda54..0c6c141 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -154,10 +154,10 @@ impl CharacterConverter {
         let mut items_map = HashMap::new();
         for table in tables.iter() {
             for item in table.items().iter() {
-                items_map.insert(
-                    item.from.chars().next().unwrap(),
-                    item.to.chars().next().unwrap(),
-                );
+                // 空文字列が指定されている場合は置換のしようがないので無視する
+                if let (Some(from), Some(to)) = (item.from.chars().next(), item.to.chars().next()) {
+                    items_map.insert(from, to);
+                }
             }
         }
         Self { items_map }
-- 
2.43.0


From 99b47cc82fef9e13e8c4f905fc0da4d4c8d22710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 11/12] fix: the CJK square unit table lists U+33A4, mm2 and
 K.K. as documented

---
 src/characters_set/cjk_compatibilities.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/characters_set/cjk_compatibilities.rs b/src/characters_set/cjk_compatibilities.rs
index a192adf..035904a 100644
--- a/src/characters_set/cjk_compatibilities.rs
+++ b/src/characters_set/cjk_compatibilities.rs
@@ -461,12 +461,12 @@ pub const SQUARE_MU_M: Correspondence<Linear> = Linear::new("\u{339B}", "µm").c
 pub const SQUARE_MM: Correspondence<Linear> = Linear::new("\u{339C}", "mm").corr(); // U+339C  ㎜  SQUARE MM   mm
 pub const SQUARE_CM: Correspondence<Linear> = Linear::new("\u{339D}", "cm").corr(); // U+339D  ㎝  SQUARE CM   cm
 pub const SQUARE_KM: Correspondence<Linear> = Linear::new("\u{339E}", "km").corr(); // U+339E  ㎞  SQUARE KM   km
-pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
+pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm2").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
 pub const SQUARE_CM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A0}", "cm2").corr(); // U+33A0  ㎠  SQUARE CM SQUARED   cm2     平方センチメートル
 pub const SQUARE_M_SQUARED: Correspondence<Linear> = Linear::new("\u{33A1}", "m2").corr(); // U+33A1  ㎡  SQUARE M SQUARED    m2  平方メートル
 pub const SQUARE_KM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A2}", "km2").corr(); // U+33A2  ㎢  SQUARE KM SQUARED   km2     平方キロメートル
 pub const SQUARE_MM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "mm3").corr(); // U+33A3  ㎣  SQUARE MM CUBED     mm3     立方ミリメートル
-pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
+pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A4}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
 pub const SQUARE_M_CUBED: Correspondence<Linear> = Linear::new("\u{33A5}", "m3").corr(); // U+33A5  ㎥  SQUARE M CUBED  m3  立方メートル
 pub const SQUARE_KM_CUBED: Correspondence<Linear> = Linear::new("\u{33A6}", "km3").corr(); // U+33A6  ㎦  SQUARE KM CUBED     km3     立方キロメートル
 pub const SQUARE_M_OVER_S: Correspondence<Linear> = Linear::new("\u{33A7}", "m/s").corr(); // U+33A7  ㎧  SQUARE M OVER S     m/s     メートル毎
@@ -508,7 +508,7 @@ pub const SQUARE_GY: Correspondence<Linear> = Linear::new("\u{33C9}", "Gy").corr
 pub const SQUARE_HA: Correspondence<Linear> = Linear::new("\u{33CA}", "ha").corr(); // U+33CA  ㏊  SQUARE HA   ha
 pub const SQUARE_HP: Correspondence<Linear> = Linear::new("\u{33CB}", "HP").corr(); // U+33CB  ㏋  SQUARE HP   HP
 pub const SQUARE_IN: Correspondence<Linear> = Linear::new("\u{33CC}", "in").corr(); // U+33CC  ㏌  SQUARE IN   in
-pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
+pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
 pub const SQUARE_KM_CAPITAL: Correspondence<Linear> = Linear::new("\u{33CE}", "KM").corr(); // U+33CE  ㏎  SQUARE KM CAPITAL   KM
 pub const SQUARE_KT: Correspondence<Linear> = Linear::new("\u{33CF}", "kt").corr(); // U+33CF  ㏏  SQUARE KT   kt
 pub const SQUARE_LM: Correspondence<Linear> = Linear::new("\u{33D0}", "lm").corr(); // U+33D0  ㏐  SQUARE LM   lm
-- 
2.43.0


From f0df2da50879710e7342dc3b9add22959e9a3b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 12/12] fix: subtracting a table yields each entry once, as
 adding does

---
 src/corr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corr.rs b/src/corr.rs
index 0941955..b11647a 100644
--- a/src/corr.rs
+++ b/src/corr.rs
@@ -197,6 +197,7 @@ where
             }
         }
         items.sort();
+        items.dedup();
         Correspondence::new(Synthesized::new(items))
     }
 }
@@ -214,6 +215,7 @@ where
             }
         }
         items.sort();
+        items.dedup();
         self.inner = Synthesized::new(items);
     }
 }
-- 
2.43.0

