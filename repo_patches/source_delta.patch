From aafdd33ec7deec2b29938371bb3195be7cf818b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 01/56] fix: keep the commodities of a balance in a fixed order

A balance in several commodities was kept in a HashMap, so the order of its
lines in the reports, the order of filled-in postings and the direction of the
implied price changed from run to run with the hash seed.
---
 src/models/balance.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 39a6785..1f0c1a0 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -1,7 +1,7 @@
 use crate::error::LedgerError;
 use crate::models::{Currency, Money};
-use std::collections::hash_map::Iter;
-use std::collections::HashMap;
+use std::collections::btree_map::Iter;
+use std::collections::BTreeMap;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::ops::{Add, Neg, Sub};
@@ -9,13 +9,13 @@ use std::rc::Rc;
 
 #[derive(Debug, Clone)]
 pub struct Balance {
-    pub balance: HashMap<Option<Rc<Currency>>, Money>,
+    pub balance: BTreeMap<Option<Rc<Currency>>, Money>,
 }
 
 impl Balance {
     pub fn new() -> Balance {
         Balance {
-            balance: HashMap::new(),
+            balance: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl<'a> Neg for Balance {
     type Output = Balance;
 
     fn neg(self) -> Self::Output {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         for (k, v) in self.balance {
             balance.insert(k, -v);
         }
@@ -93,7 +93,7 @@ impl Add for Balance {
     type Output = Balance;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let mut total: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut total: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         let balances = vec![self, rhs];
         for bal in balances.iter() {
             for (cur, money) in bal.balance.iter() {
@@ -136,7 +136,7 @@ impl Sub for Balance {
 // Converter
 impl From<Money> for Balance {
     fn from(money: Money) -> Self {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         match money {
             Money::Zero => balance.insert(None, Money::Zero),
             Money::Money { ref currency, .. } => {
-- 
2.43.0


From a6e74d63737ff423e7207f6e232c9ce28bc38b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:20 +0000
Subject: [PATCH 02/56] fix: register the names used in transactions in a fixed
 order

When a name was used with several spellings (upper and lower case), the
spelling shown in the reports depended on the hash seed.
---
 src/models/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 89cc367..684be6b 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -1,5 +1,5 @@
 use num::rational::BigRational;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub use account::Account;
 pub use balance::Balance;
@@ -55,9 +55,9 @@ impl Ledger {
 impl ParsedLedger {
     /// Creates a proper ledger from a parsed ledger
     pub fn to_ledger(mut self, no_checks: bool) -> Result<Ledger, Error> {
-        let mut commodity_strs = HashSet::<String>::new();
-        let mut account_strs = HashSet::<String>::new();
-        let mut payee_strs = HashSet::<String>::new();
+        let mut commodity_strs = BTreeSet::<String>::new();
+        let mut account_strs = BTreeSet::<String>::new();
+        let mut payee_strs = BTreeSet::<String>::new();
 
         // 1. Populate the directive lists
 
-- 
2.43.0


From 5fcc12b1627cb2ff58e52ac843fb5e872fc1ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 03/56] fix: choose the payee by alias in a fixed order

When the aliases of several payees match a description, which payee was chosen
depended on the hash seed; now it is the first one by name.
---
 src/models/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 684be6b..ba411bf 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -104,6 +104,8 @@ impl ParsedLedger {
 
         // Payees
         let payees_copy = self.payees.clone();
+        let mut sorted_payees = payees_copy.values().collect::<Vec<_>>();
+        sorted_payees.sort_by(|a, b| a.get_name().cmp(b.get_name()));
         for alias in payee_strs {
             match self.payees.get(&alias) {
                 Ok(_) => {} // do nothing
@@ -112,7 +114,7 @@ impl ParsedLedger {
                     let mut matched = false;
                     let mut alias_to_add = "".to_string();
                     let mut payee_to_add = None;
-                    'outer: for (_, p) in payees_copy.iter() {
+                    'outer: for p in sorted_payees.iter() {
                         for p_alias in p.get_aliases().iter() {
                             if p_alias.is_match(alias.as_str()) {
                                 payee_to_add = Some(p);
-- 
2.43.0


From 1b046fc9514265c0093a0d98e5d538331d2fe681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:59 +0000
Subject: [PATCH 04/56] fix: resolve unknown accounts in a fixed order

When the payee patterns of several accounts match, the account that replaces an
unknown one depended on the hash seed; now it is the first one by name.
---
 src/models/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index ba411bf..1962f18 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -375,12 +375,14 @@ impl ParsedLedger {
                         Some(x) => self.payees.get(x).unwrap().clone(),
                     };
                     let account = if p.account.to_lowercase().ends_with("unknown") {
+                        let mut accounts = self.accounts.values().collect::<Vec<_>>();
+                        accounts.sort_by(|a, b| a.get_name().cmp(b.get_name()));
                         let mut account = None;
-                        for (_, acc) in self.accounts.iter() {
+                        'outer: for acc in accounts {
                             for alias in acc.payees().iter() {
                                 if alias.is_match(payee.get_name()) {
                                     account = Some(acc.clone());
-                                    break;
+                                    break 'outer;
                                 }
                             }
                         }
-- 
2.43.0


From 18ba173d727af306dcfe8f624c25a3a428f31d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:48 +0000
Subject: [PATCH 05/56] fix: build the price graph in a fixed order

Among equally recent chains of prices, the one used by -X depended on the hash
seed.
---
 src/models/price.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index ab180b9..6a4f494 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -3,7 +3,7 @@ use chrono::{Duration, NaiveDate};
 use num::rational::BigRational;
 use num::BigInt;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::rc::Rc;
@@ -178,12 +178,12 @@ struct Graph {
 
 impl Graph {
     fn from_prices(prices: &Vec<Price>, source: Node) -> Self {
-        let mut nodes = HashMap::new();
+        let mut nodes = BTreeMap::new();
         let mut edges = Vec::new();
-        let mut currency_dates = HashSet::new();
+        let mut currency_dates = BTreeSet::new();
         currency_dates.insert((source.currency.clone(), source.date));
         // Remove redundant prices and create the nodes
-        let mut prices_nodup = HashMap::new();
+        let mut prices_nodup = BTreeMap::new();
         for p in prices.iter() {
             if p.date > source.date {
                 continue;
-- 
2.43.0


From 9255db3628ae3d66c17e123b0fe49cf7718e8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:58 +0000
Subject: [PATCH 06/56] fix: convert with the most recent price of a commodity

The date of the price in use was only recorded for the first one found, so an
older price could replace a newer one, depending on the hash seed.
---
 src/models/price.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index 6a4f494..b53a54e 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -123,10 +123,9 @@ pub fn conversion(
                     continue;
                 }
             }
-            None => {
-                inserted.insert(currency.clone(), k.date);
-            }
+            None => (),
         }
+        inserted.insert(currency.clone(), k.date);
         for edge in v.iter().rev() {
             match edge.as_ref().price.as_ref() {
                 None => (), // do nothing, multiply by one and keep the same currency
-- 
2.43.0


From 3acd4cee589c5617f85b0352359595d1a2ff933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:27 +0000
Subject: [PATCH 07/56] fix: the price implied by a sale at a total cost is
 positive

Selling with a total cost (-3 ACME @@ 30 EUR) recorded the negative price
-10 EUR for ACME, which -X and the prices command then used.
---
 src/models/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 1962f18..b14f223 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -431,7 +431,7 @@ impl ParsedLedger {
                                 amount: p.cost_amount.clone().unwrap()
                                     / match p.cost_type.as_ref().unwrap() {
                                         PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().get_amount()
+                                            posting.amount.as_ref().unwrap().abs().get_amount()
                                         }
                                         PriceType::PerUnit => BigRational::from(BigInt::from(1)),
                                     },
-- 
2.43.0


From 7bae0d40a595fc45cf2e24026728f5ed5dc2cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:31 +0000
Subject: [PATCH 08/56] fix: show the sign of amounts between -1 and 1

-0.50 EUR was shown as 0.50 EUR and 0.999 EUR as -1.00 EUR: the sign was taken
from the integer part, which is zero there.
---
 src/models/money.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 70a8bca..be3864d 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -119,16 +119,23 @@ impl Display for Money {
                 let len = format!("{}", decimal).len();
                 if len == decimals + 1 {
                     decimal = 0;
-                    if integer_part.is_positive() {
-                        integer_part += BigInt::from(1);
-                    } else {
+                    if amount.is_negative() {
                         integer_part -= BigInt::from(1);
+                    } else {
+                        integer_part += BigInt::from(1);
                     }
                 }
+                // The integer part carries the sign, unless it is zero
+                let sign = if amount.is_negative() & integer_part.is_zero() & (decimal > 0) {
+                    "-"
+                } else {
+                    ""
+                };
                 decimal_str = format!("{:0width$}", decimal, width = decimals);
                 write!(
                     f,
-                    "{}.{} {}",
+                    "{}{}.{} {}",
+                    sign,
                     integer_part.numer(),
                     decimal_str,
                     currency.get_name()
-- 
2.43.0


From e18cebede40e819eb4b6fe2f100054e0319bbf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:56 +0000
Subject: [PATCH 09/56] fix: skip comments in tag directives

An indented comment under a tag directive was never consumed: the program
looped forever.
---
 src/parser/tokenizers/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index c0f54cb..52ef6b5 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -47,7 +47,9 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     }
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
-            ';' => {} // Skip comments
+            ';' => {
+                chars::get_line(tokenizer);
+            } // Skip comments
             _ => match chars::get_string(tokenizer).as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
-- 
2.43.0


From 79959735bef07ae8ca76aac508fdb7ba15b39272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:45 +0000
Subject: [PATCH 10/56] fix: accept a posting that ends the file without a
 newline

A posting without an amount at the very end of a file that has no final newline
made the program panic.
---
 src/parser/tokenizers/transaction.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1d508b2..7b36df1 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -199,6 +199,11 @@ fn parse_posting(
     let mut finished = false;
     // Get the account name
     loop {
+        if tokenizer.get_char().is_none() {
+            // The file ends here, there is no amount
+            finished = true;
+            break;
+        }
         let c = tokenizer.next();
         if !c.is_whitespace() {
             account.push(c);
@@ -211,6 +216,9 @@ fn parse_posting(
             }
             break;
         } else {
+            if tokenizer.get_char().is_none() {
+                continue;
+            }
             let d = tokenizer.next();
             if d.is_whitespace() | (c == '\n') {
                 break;
-- 
2.43.0


From 73ee35e31b0a89eaf3764e38a5dbf7154f2c3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:55 +0000
Subject: [PATCH 11/56] fix: a posting ends with its line

One blank (or a carriage return) between the account of a posting without an
amount and the end of its line made the parser read the next line as the amount.
---
 src/parser/tokenizers/transaction.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 7b36df1..5a4ee30 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -219,6 +219,9 @@ fn parse_posting(
             if tokenizer.get_char().is_none() {
                 continue;
             }
+            if tokenizer.get_char() == Some('\n') {
+                break; // the posting ends with the line
+            }
             let d = tokenizer.next();
             if d.is_whitespace() | (c == '\n') {
                 break;
-- 
2.43.0


From 0c43f93d48faad52f1c22b5a240b49dde54626fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:05 +0000
Subject: [PATCH 12/56] fix: the expression of an automated posting may end the
 file

Without a final newline the parser stepped back over the last character of the
expression again and again and never ended.
---
 src/parser/tokenizers/transaction.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 5a4ee30..2b05d93 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -343,8 +343,10 @@ fn parse_posting(
                     TransactionType::Automated => {
                         posting.amount_expr = Some(chars::get_line(tokenizer));
 
-                        tokenizer.line_index -= 1;
-                        tokenizer.position -= 1;
+                        if tokenizer.content[tokenizer.position - 1] == '\n' {
+                            tokenizer.line_index -= 1;
+                            tokenizer.position -= 1;
+                        }
                     }
                 },
             },
-- 
2.43.0


From 878ee9e407ac46470e7a7647219f92d3ece90e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 13/56] fix: an include that cannot be read is an error

---
 src/parser/include.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dd4e708..3c203fa 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -1,13 +1,13 @@
 use crate::parser::{chars, ParsedLedger, Tokenizer};
 
 use crate::{Error, ParserError};
-use glob::glob;
+use glob::{glob, GlobResult, Pattern};
 use std::path::PathBuf;
 
 /// Handles include directive
 pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
     chars::consume_str(tokenizer, &"include ".to_string())?;
-    let mut pattern = String::new();
+    let mut parent_path = String::new();
     let mut files: Vec<PathBuf> = Vec::new();
     if let Some(current_path) = tokenizer.file {
         // let mut parent = format!("{:?}", current_path.parent().unwrap()).replace('"', "");
@@ -16,10 +16,19 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
             parent.push('.')
         }
         parent.push('/');
-        pattern.push_str(parent.as_str());
+        parent_path.push_str(parent.as_str());
     }
-    pattern.push_str(chars::get_line(tokenizer).as_str());
-    for entry in glob(&pattern).expect("Failed to read glob pattern") {
+    let included = chars::get_line(tokenizer);
+    let entries: Vec<GlobResult> = if included.contains(|c| c == '*' || c == '?' || c == '[') {
+        let pattern = format!("{}{}", Pattern::escape(&parent_path), included);
+        glob(&pattern)
+            .expect("Failed to read glob pattern")
+            .collect()
+    } else {
+        // Not a pattern, so that exact file has to be there
+        vec![Ok(PathBuf::from(format!("{}{}", parent_path, included)))]
+    };
+    for entry in entries {
         match entry {
             Ok(path) => {
                 files.push(path.clone());
@@ -33,7 +42,7 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
                     None => (),
                 }
             }
-            Err(e) => eprintln!("{:?}", e),
+            Err(e) => return Err(tokenizer.error(ParserError::CannotReadFile(e.to_string()))),
         }
     }
     let mut items: ParsedLedger = ParsedLedger::new();
-- 
2.43.0


From eb1a88de321f7009ed6eb02663f85a2dd66f7537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:11 +0000
Subject: [PATCH 14/56] fix: detect include cycles however the path is spelled

---
 src/parser/include.rs | 5 +++--
 src/parser/mod.rs     | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 3c203fa..427443e 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -32,7 +32,8 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         match entry {
             Ok(path) => {
                 files.push(path.clone());
-                match tokenizer.seen_files.get(&path) {
+                let canonical = path.canonicalize().unwrap_or(path.clone());
+                match tokenizer.seen_files.get(&canonical) {
                     Some(_) => {
                         return Err(tokenizer.error(ParserError::IncludeLoop(format!(
                             "Cycle detected. {:?}",
@@ -49,7 +50,7 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
     for file in files {
         let mut inner_tokenizer: Tokenizer = Tokenizer::from(&file);
         for p in tokenizer.seen_files.iter() {
-            inner_tokenizer.seen_files.insert(*p);
+            inner_tokenizer.seen_files.insert(p.clone());
         }
         let mut new_items: ParsedLedger = inner_tokenizer.tokenize()?;
         items.append(&mut new_items);
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cadf9bb..876b418 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -83,15 +83,16 @@ pub struct Tokenizer<'a> {
     line_string: &'a str,
     line_characters: Vec<char>,
     position: usize,
-    seen_files: HashSet<&'a PathBuf>,
+    seen_files: HashSet<PathBuf>,
 }
 
 impl<'a> From<&'a PathBuf> for Tokenizer<'a> {
     fn from(file: &'a PathBuf) -> Self {
         match read_to_string(file) {
             Ok(content) => {
-                let mut seen_files: HashSet<&PathBuf> = HashSet::new();
-                seen_files.insert(file);
+                // The same file can be reached with different names
+                let mut seen_files: HashSet<PathBuf> = HashSet::new();
+                seen_files.insert(file.canonicalize().unwrap_or(file.clone()));
                 Tokenizer {
                     file: Some(file),
                     content: content.chars().collect::<Vec<char>>(),
-- 
2.43.0


From be1e7da54ac73f61705e41b737c473fe1f3d698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:20 +0000
Subject: [PATCH 15/56] fix: an init file that cannot be read is an error

---
 src/app.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 0c2d7eb..e389197 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -2,6 +2,7 @@
 use std::collections::HashMap;
 use std::env;
 use std::fs::read_to_string;
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 use structopt::StructOpt;
 use two_timer;
@@ -134,9 +135,14 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     let mut config_file = None;
     for path in possible_paths.iter() {
         let file = Path::new(path);
-        if file.exists() {
-            config_file = Some(file);
-            break;
+        match file.metadata() {
+            // It may exist even if it cannot be read
+            Err(e) if e.kind() == ErrorKind::NotFound => continue,
+            Err(e) if e.kind() == ErrorKind::NotADirectory => continue,
+            _ => {
+                config_file = Some(file);
+                break;
+            }
         }
     }
     if let Some(file) = config_file {
-- 
2.43.0


From 119001994e2a2dcaa2b1ec1a8b32f5f857fd24ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 16/56] fix: any form of an option on the command line
 overrides the init file

---
 src/app.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index e389197..4b79f52 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -128,6 +128,9 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
         if args[i] == "--init-file" {
             possible_paths.push(args[i + 1].clone());
             break;
+        } else if args[i].starts_with("--init-file=") {
+            possible_paths.push(args[i]["--init-file=".len()..].to_string());
+            break;
         }
     }
     possible_paths.push(shellexpand::tilde("~/.ledgerrc").to_string());
@@ -148,6 +151,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     if let Some(file) = config_file {
         let mut aliases = HashMap::new();
         aliases.insert("-f".to_string(), "--file".to_string());
+        aliases.insert("-d".to_string(), "--depth".to_string());
+        aliases.insert("-b".to_string(), "--begin".to_string());
+        aliases.insert("-e".to_string(), "--end".to_string());
+        aliases.insert("-p".to_string(), "--period".to_string());
         let contents = read_to_string(file).unwrap();
         for line in contents.lines() {
             let option = line.trim_start();
@@ -160,8 +167,15 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         );
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
-                        if !args.iter().any(|x| {
-                            (x == option) | (aliases.get(x).unwrap_or(&String::new()) == option)
+                        let option_name = option.split('=').next().unwrap();
+                        if !args.iter().any(|arg| {
+                            // Arguments can also be given as --option=value or -ovalue
+                            let x = match arg.starts_with("--") {
+                                true => arg.split('=').next().unwrap(),
+                                false => arg.get(0..2).unwrap_or(""),
+                            };
+                            (x == option_name)
+                                | (aliases.get(x).unwrap_or(&String::new()) == option_name)
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From d142eea2fc5d35e0a2403c8dcc2c43d9e14409a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:59 +0000
Subject: [PATCH 17/56] fix: collapse an account in the tree balance only into
 an only child

---
 src/commands/balance.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index dc15ab0..b1be001 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -153,7 +153,8 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
     }
 
-    vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    // Account by account, so that children are next to their parents
+    vec_balances.sort_by(|a, b| a.0.split(":").cmp(b.0.split(":")));
     let num_bal = vec_balances.len();
     let mut index = 0;
     let mut showed_balances = 0;
@@ -195,26 +196,23 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
             }
             // start by getting the account name
             let mut text = account.split(":").last().unwrap().to_string();
-            // This is where it gets tricky, we need to collapse while we can
-            let mut collapse = true;
+            // This is where it gets tricky, we need to collapse while we can, that is, while all the
+            // money is in an only child
             loop {
-                if (index + 1) >= num_bal {
-                    break;
-                }
-                if vec_balances[index + 1].0.split(":").count() != (n + 1) {
-                    break;
-                }
-                for j in (index + 2)..num_bal {
-                    let name = vec_balances[j].0.clone();
-                    if !name.starts_with(account) {
-                        break;
-                    }
-                    let this_depth = name.split(":").count();
-                    if this_depth == n + 1 {
-                        collapse = false;
-                        break;
+                let (current, current_balance) = &vec_balances[index];
+                let prefix = format!("{}:", current);
+                let mut below = vec_balances[index + 1..]
+                    .iter()
+                    .take_while(|x| x.0.starts_with(&prefix));
+                let collapse = match below.next() {
+                    None => false,
+                    Some((child, child_balance)) => {
+                        let child_prefix = format!("{}:", child);
+                        (child.split(":").count() == n + 1)
+                            && (current_balance.clone() - child_balance.clone()).is_zero()
+                            && below.all(|x| x.0.starts_with(&child_prefix))
                     }
-                }
+                };
                 if collapse {
                     text.push(':');
                     text.push_str(&vec_balances[index + 1].0.split(":").last().unwrap());
-- 
2.43.0


From 1b5475061290d1f006965e522b172658a0c6b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:11 +0000
Subject: [PATCH 18/56] fix: the first of two declarations counts in included
 files too

---
 src/list.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 7461a88..25e3c73 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -131,8 +131,17 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
 impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
-        self.list.extend(other.to_owned().list.into_iter());
-        self.aliases.extend(other.to_owned().aliases.into_iter());
+        // As in insert, the first one counts when there are duplicates
+        for (alias, name) in other.aliases.iter() {
+            if !self.list.contains_key(name) {
+                self.aliases.insert(alias.clone(), name.clone());
+            }
+        }
+        for (name, element) in other.list.iter() {
+            self.list
+                .entry(name.clone())
+                .or_insert_with(|| element.clone());
+        }
     }
 }
 
-- 
2.43.0


From 4d1d42d428118ece8e268610c8f1cb0a2e6efc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:24 +0000
Subject: [PATCH 19/56] fix: use every term of a chain of operators

---
 src/parser/value_expr.rs | 46 +++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index d95ab10..f0507bb 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -412,31 +412,29 @@ fn build_ast_from_expr(
         | Rule::multiplicative_expr => {
             let mut pair = pair.into_inner();
             let lhspair = pair.next().unwrap();
-            let lhs = build_ast_from_expr(lhspair, regexes);
-            match pair.next() {
-                None => lhs,
-                Some(x) => {
-                    let op = match rule {
-                        Rule::or_expr => Binary::Or,
-                        Rule::and_expr => Binary::And,
-                        _ => match x.as_str() {
-                            "+" => Binary::Add,
-                            "-" => Binary::Subtract,
-                            "*" => Binary::Mult,
-                            "/" => Binary::Div,
-                            "=~" | "==" => Binary::Eq,
-                            "<" => Binary::Lt,
-                            ">" => Binary::Gt,
-                            "<=" => Binary::Le,
-                            ">=" => Binary::Ge,
-                            x => unreachable!("{}", x),
-                        },
-                    };
-                    let rhspair = pair.next().unwrap();
-                    let rhs = build_ast_from_expr(rhspair, regexes);
-                    parse_binary_expr(op, lhs, rhs)
-                }
+            let mut lhs = build_ast_from_expr(lhspair, regexes);
+            while let Some(x) = pair.next() {
+                let op = match rule {
+                    Rule::or_expr => Binary::Or,
+                    Rule::and_expr => Binary::And,
+                    _ => match x.as_str() {
+                        "+" => Binary::Add,
+                        "-" => Binary::Subtract,
+                        "*" => Binary::Mult,
+                        "/" => Binary::Div,
+                        "=~" | "==" => Binary::Eq,
+                        "<" => Binary::Lt,
+                        ">" => Binary::Gt,
+                        "<=" => Binary::Le,
+                        ">=" => Binary::Ge,
+                        x => unreachable!("{}", x),
+                    },
+                };
+                let rhspair = pair.next().unwrap();
+                let rhs = build_ast_from_expr(rhspair, regexes);
+                lhs = parse_binary_expr(op, lhs, rhs);
             }
+            lhs
         }
         Rule::primary => {
             let mut inner = pair.into_inner();
-- 
2.43.0


From 58d5bb50d0ee530f77e9bf4117c7cceb8a0dd31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:51 +0000
Subject: [PATCH 20/56] fix: the cost of a sale in virtual postings is negative

---
 src/models/transaction.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 8295fe3..439f8ee 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -239,12 +239,7 @@ fn total_balance(postings: &Vec<Posting>, kind: PostingType) -> Balance {
                         Money::Money { amount, .. } => amount.clone(),
                     };
                     let money = Money::Money {
-                        amount: units
-                            * (if p.amount.as_ref().unwrap().is_negative() {
-                                -BigInt::from(1)
-                            } else {
-                                BigInt::from(1)
-                            }),
+                        amount: units,
                         currency: currency.clone(),
                     };
                     Balance::from(money)
-- 
2.43.0


From 9a98fd7021811ac543866fc3631ead26ce0c414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:26 +0000
Subject: [PATCH 21/56] fix: refuse virtual postings without an amount

---
 src/models/transaction.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 439f8ee..249670e 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -281,6 +281,15 @@ impl Transaction<Posting> {
         let mut transaction_balance = Balance::new();
 
         // 1. Check the virtual postings
+        if self
+            .postings
+            .borrow()
+            .iter()
+            .any(|p| (p.kind != PostingType::Real) & p.amount.is_none())
+        {
+            // Only the amount of a real posting can be left out
+            return Err(LedgerError::TransactionIsNotBalanced);
+        }
         match total_balance(&*self.postings.borrow(), PostingType::VirtualMustBalance).can_be_zero()
         {
             true => {}
-- 
2.43.0


From 368be6aeaa840cdd01dcf55d1422827a0d24a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:41 +0000
Subject: [PATCH 22/56] fix: say where a line starting like an include is wrong

---
 src/parser/include.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 427443e..ecf9927 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -6,7 +6,9 @@ use std::path::PathBuf;
 
 /// Handles include directive
 pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
-    chars::consume_str(tokenizer, &"include ".to_string())?;
+    if let Err(e) = chars::consume_str(tokenizer, &"include ".to_string()) {
+        return Err(tokenizer.error(e));
+    }
     let mut parent_path = String::new();
     let mut files: Vec<PathBuf> = Vec::new();
     if let Some(current_path) = tokenizer.file {
-- 
2.43.0


From 9cc417cb431c85e682a0b0f295e2eff5ae8c19e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:41 +0000
Subject: [PATCH 23/56] fix: explain an error on the first line of a file

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 876b418..418c2fc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -221,7 +221,7 @@ impl<'a> Tokenizer<'a> {
         let string = self.content.iter().collect::<String>();
 
         for (i, line) in string.lines().enumerate() {
-            if i < self.line_index - 1 {
+            if i + 1 < self.line_index {
                 continue;
             };
             if i > self.line_index {
-- 
2.43.0


From f002f10b1c53568dbf36a7e6a17899609b2d5742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:21 +0000
Subject: [PATCH 24/56] fix: read the clock once, so that a run which passes
 midnight does not mix two days

---
 src/app.rs              | 13 +++++++++++--
 src/commands/balance.rs |  5 ++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 4b79f52..e3cc7a3 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -12,7 +12,7 @@ use regex::Regex;
 
 use crate::commands::{accounts, balance, check, commodities, payees, prices, register};
 use crate::Error;
-use chrono::NaiveDate;
+use chrono::{DateTime, Local, NaiveDate, Utc};
 use colored::Colorize;
 
 #[derive(Debug, StructOpt)]
@@ -250,6 +250,14 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     Ok(())
 }
 
+/// The instant of the run. The clock is read only once, so that the day does not change half-way
+pub fn now() -> DateTime<Utc> {
+    lazy_static! {
+        static ref NOW: DateTime<Utc> = Utc::now();
+    }
+    *NOW
+}
+
 /// A parser for date expressions
 pub fn date_parser(date: &str) -> Result<NaiveDate, Error> {
     lazy_static! {
@@ -271,7 +279,8 @@ pub fn date_parser(date: &str) -> Result<NaiveDate, Error> {
             1,
         ))
     } else {
-        match two_timer::parse(date, None) {
+        let config = two_timer::Config::new().now(now().with_timezone(&Local).naive_local());
+        match two_timer::parse(date, Some(config)) {
             Ok((t1, _t2, _b)) => Ok(t1.date()),
             Err(e) => {
                 eprintln!("{:?}", e);
diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index b1be001..f8309cb 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -7,8 +7,7 @@ use crate::models::{conversion, Account, Balance, Currency, HasName, Money};
 use crate::parser::value_expr::build_root_node_from_expression;
 use crate::parser::Tokenizer;
 use crate::Error;
-use crate::{filter, CommonOpts};
-use chrono::Utc;
+use crate::{app, filter, CommonOpts};
 use num::rational::BigRational;
 use std::ops::Deref;
 use std::rc::Rc;
@@ -139,7 +138,7 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         if let Ok(currency) = ledger.commodities.get(currency_string) {
             multipliers = conversion(
                 currency.clone(),
-                Utc::now().naive_local().date(),
+                app::now().naive_utc().date(),
                 &ledger.prices,
             );
             let mut updated_balances = Vec::new();
-- 
2.43.0


From 798d66541a0056efe265338480e5efb30612a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:35 +0000
Subject: [PATCH 25/56] fix: list the price implied by an exchange once also
 when there are automated transactions

---
 src/models/mod.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index b14f223..e88a882 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -311,25 +311,11 @@ impl ParsedLedger {
 
             // Balance the transactions
             for t in transactions.iter_mut() {
-                let date = t.date.unwrap().clone();
                 // output_balances(&balances);
-                let balance = match t.balance(&mut balances, no_checks) {
-                    Ok(balance) => balance,
-                    Err(e) => {
-                        eprintln!("{}", t);
-                        return Err(e.into());
-                    }
-                };
-                if balance.len() == 2 {
-                    let vec = balance.iter().map(|(_, x)| x.abs()).collect::<Vec<Money>>();
-
-                    let commodity = vec[0].get_commodity().unwrap().clone();
-                    let price = Money::Money {
-                        amount: vec[1].get_amount() / vec[0].get_amount(),
-                        currency: vec[1].get_commodity().unwrap().clone(),
-                    };
-
-                    prices.push(Price::new(date, commodity, price));
+                // The prices implied by the transaction are already known
+                if let Err(e) = t.balance(&mut balances, no_checks) {
+                    eprintln!("{}", t);
+                    return Err(e.into());
                 }
             }
         }
-- 
2.43.0


From fe602478778be03d638f4d5cec552482f61f2f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:48 +0000
Subject: [PATCH 26/56] fix: accept accounts whose name starts with a letter
 outside ASCII

---
 src/parser/tokenizers/transaction.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 2b05d93..ec4c5c2 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -232,8 +232,8 @@ fn parse_posting(
         }
     }
     // See if it is a virtual account
-    match &account[0..1] {
-        "(" => {
+    match account.chars().next() {
+        Some('(') => {
             posting_type = PostingType::Virtual;
             if account.pop().unwrap() != ')' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -241,7 +241,7 @@ fn parse_posting(
                 )));
             }
         }
-        "[" => {
+        Some('[') => {
             posting_type = PostingType::VirtualMustBalance;
             if account.pop().unwrap() != ']' {
                 return Err(ParserError::UnexpectedInput(Some(
-- 
2.43.0


From f27dee1b52cb08ca846701fca8f99c049d5876a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:18 +0000
Subject: [PATCH 27/56] fix: the carriage return of a CRLF line end is not part
 of the line

---
 src/parser/chars.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 2c44973..aac8e60 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -94,6 +94,9 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
         if *c == '\n' {
             tokenizer.line_index += 1;
             tokenizer.line_position = 0;
+            if retval.last() == Some(&'\r') {
+                retval.pop(); // the line ends with CRLF
+            }
             break;
         }
         retval.push(*c);
-- 
2.43.0


From bb1bafbb831af6cf25b488a34d8882b33f3bbb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:28 +0000
Subject: [PATCH 28/56] fix: accept times from 20:00 on

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 22d4594..1102558 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -32,7 +32,7 @@ month = {("1" ~ ("0" | "1" | "2")) | ("0"? ~ ASCII_NONZERO_DIGIT)}
 day = {("3" ~ ("0" | "1")) |
 	(("1" | "2") ~ ASCII_DIGIT ) |
     ("0"? ~ ASCII_NONZERO_DIGIT) }
-hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" ~"1" ~"2" ~"3"))}
+hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" | "1" | "2" | "3"))}
 minute = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT }
 second = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT ~ ("." ~ bigint)? }
 
-- 
2.43.0


From bb97d2f219b8bf564d7f53e334fbca228db5b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:34 +0000
Subject: [PATCH 29/56] fix: say where a malformed header, price or directive
 line is

---
 src/parser/chars.rs                  | 12 +++++++++++
 src/parser/tokenizers/account.rs     |  8 +++++++-
 src/parser/tokenizers/commodity.rs   | 14 ++++++++-----
 src/parser/tokenizers/payee.rs       |  8 +++++++-
 src/parser/tokenizers/price.rs       | 22 ++++++++++++++------
 src/parser/tokenizers/tag.rs         |  8 +++++++-
 src/parser/tokenizers/transaction.rs | 30 +++++++++++++++++++++-------
 src/parser/utils.rs                  | 21 +++++++++++++++----
 8 files changed, 98 insertions(+), 25 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index aac8e60..3489406 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -104,6 +104,18 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
     retval.iter().collect()
 }
 
+/// Goes back to the start of the line that has just been read, so that an error points at it
+pub(super) fn unread_line(tokenizer: &mut Tokenizer) {
+    if tokenizer.position > 0 && tokenizer.content[tokenizer.position - 1] == '\n' {
+        tokenizer.position -= 1;
+        tokenizer.line_index -= 1;
+    }
+    while tokenizer.position > 0 && tokenizer.content[tokenizer.position - 1] != '\n' {
+        tokenizer.position -= 1;
+    }
+    tokenizer.line_position = 0;
+}
+
 /// Returns a word (whatever is between spaces)
 pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
     consume_whitespaces(tokenizer);
diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index 90119d0..7e97a7f 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -14,7 +14,13 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => {
+            chars::unread_line(tokenizer);
+            return Err(ParserError::UnexpectedInput(None));
+        }
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/commodity.rs b/src/parser/tokenizers/commodity.rs
index bdf43ff..fdd95f2 100644
--- a/src/parser/tokenizers/commodity.rs
+++ b/src/parser/tokenizers/commodity.rs
@@ -11,11 +11,15 @@ use pest::Parser;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Currency, ParserError> {
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::commodity, mystr.as_str())
-        .expect("Could not parse commodity!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
+    let mut parsed = match GrammarParser::parse(Rule::commodity, mystr.as_str()) {
+        Ok(mut pairs) => pairs.next().unwrap().into_inner(),
+        Err(_) => {
+            chars::unread_line(tokenizer);
+            return Err(ParserError::UnexpectedInput(Some(
+                "Could not parse commodity!".to_string(),
+            )));
+        }
+    };
 
     let name = parse_string(parsed.next().unwrap());
     let mut note: Option<String> = None;
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index a0c0ff0..3a54245 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -18,7 +18,13 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => {
+            chars::unread_line(tokenizer);
+            return Err(ParserError::UnexpectedInput(None));
+        }
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/price.rs b/src/parser/tokenizers/price.rs
index 6d0a89e..f286fa7 100644
--- a/src/parser/tokenizers/price.rs
+++ b/src/parser/tokenizers/price.rs
@@ -7,12 +7,22 @@ use pest::Parser;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedPrice, ParserError> {
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::price, mystr.as_str())
-        .expect("Could not parse price!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
-    let date = parse_date(parsed.next().unwrap());
+    let mut parsed = match GrammarParser::parse(Rule::price, mystr.as_str()) {
+        Ok(mut pairs) => pairs.next().unwrap().into_inner(),
+        Err(_) => {
+            chars::unread_line(tokenizer);
+            return Err(ParserError::UnexpectedInput(Some(
+                "Could not parse price!".to_string(),
+            )));
+        }
+    };
+    let date = match parse_date(parsed.next().unwrap()) {
+        Ok(date) => date,
+        Err(e) => {
+            chars::unread_line(tokenizer);
+            return Err(e);
+        }
+    };
     let commodity = {
         let time_or_commodity = parsed.next().unwrap();
         match time_or_commodity.as_rule() {
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index 52ef6b5..cdb58c1 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -14,7 +14,13 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => {
+            chars::unread_line(tokenizer);
+            return Err(ParserError::UnexpectedInput(None));
+        }
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index ec4c5c2..c07bf65 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -19,20 +19,36 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>
 /// Parses a transaction
 fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>, Error> {
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::transaction, mystr.as_str())
-        .expect("Could not parse transaction!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
+    let mut parsed = match GrammarParser::parse(Rule::transaction, mystr.as_str()) {
+        Ok(mut pairs) => pairs.next().unwrap().into_inner(),
+        Err(_) => {
+            chars::unread_line(tokenizer);
+            return Err(tokenizer.error(ParserError::UnexpectedInput(Some(
+                "Could not parse transaction!".to_string(),
+            ))));
+        }
+    };
 
     let mut transaction = Transaction::<RawPosting>::new(TransactionType::Real);
-    transaction.date = Some(parse_date(parsed.next().unwrap()));
+    transaction.date = match parse_date(parsed.next().unwrap()) {
+        Ok(date) => Some(date),
+        Err(e) => {
+            chars::unread_line(tokenizer);
+            return Err(tokenizer.error(e));
+        }
+    };
     let mut next_item = parsed.next().unwrap();
     if next_item.as_rule() == Rule::time {
         next_item = parsed.next().unwrap()
     }
     if next_item.as_rule() == Rule::date {
-        transaction.effective_date = Some(parse_date(next_item));
+        transaction.effective_date = match parse_date(next_item) {
+            Ok(date) => Some(date),
+            Err(e) => {
+                chars::unread_line(tokenizer);
+                return Err(tokenizer.error(e));
+            }
+        };
         next_item = parsed.next().unwrap()
     }
     if next_item.as_rule() == Rule::time {
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 6de27ef..fceb7fd 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -1,23 +1,36 @@
 //! This module contains auxiliary parsers
 
 use super::Rule;
+use crate::ParserError;
 use chrono::NaiveDate;
 use num::{BigInt, BigRational};
 use pest::iterators::Pair;
 use std::str::FromStr;
 
 /// Parses a date
-pub(crate) fn parse_date(date: Pair<Rule>) -> NaiveDate {
+pub(crate) fn parse_date(date: Pair<Rule>) -> Result<NaiveDate, ParserError> {
     // Assume date is a Rule::date
     let mut parsed = date.into_inner();
-    let year = i32::from_str(parsed.next().unwrap().as_str()).unwrap();
+    let year = i32::from_str(parsed.next().unwrap().as_str());
     let sep1 = parsed.next().unwrap().as_str();
     let month = u32::from_str(parsed.next().unwrap().as_str()).unwrap();
     let sep2 = parsed.next().unwrap().as_str();
     let day = u32::from_str(parsed.next().unwrap().as_str()).unwrap();
 
-    assert_eq!(sep1, sep2, "wrong date separator");
-    NaiveDate::from_ymd(year, month, day)
+    if sep1 != sep2 {
+        return Err(ParserError::UnexpectedInput(Some(
+            "wrong date separator".to_string(),
+        )));
+    }
+    match year
+        .ok()
+        .and_then(|year| NaiveDate::from_ymd_opt(year, month, day))
+    {
+        Some(date) => Ok(date),
+        None => Err(ParserError::UnexpectedInput(Some(
+            "There is no such date".to_string(),
+        ))),
+    }
 }
 
 pub(crate) fn parse_rational(number: Pair<Rule>) -> BigRational {
-- 
2.43.0


From a266f9b95d7bbe53d0815a6ed747e19e2afbc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:01 +0000
Subject: [PATCH 30/56] fix: name the file that cannot be read and the line of
 an include that fails

---
 src/parser/include.rs | 6 +++++-
 src/parser/mod.rs     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index ecf9927..20216b5 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -37,6 +37,7 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
                 let canonical = path.canonicalize().unwrap_or(path.clone());
                 match tokenizer.seen_files.get(&canonical) {
                     Some(_) => {
+                        chars::unread_line(tokenizer);
                         return Err(tokenizer.error(ParserError::IncludeLoop(format!(
                             "Cycle detected. {:?}",
                             &path
@@ -45,7 +46,10 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
                     None => (),
                 }
             }
-            Err(e) => return Err(tokenizer.error(ParserError::CannotReadFile(e.to_string()))),
+            Err(e) => {
+                chars::unread_line(tokenizer);
+                return Err(tokenizer.error(ParserError::CannotReadFile(e.to_string())));
+            }
         }
     }
     let mut items: ParsedLedger = ParsedLedger::new();
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 418c2fc..4e347b8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -105,7 +105,7 @@ impl<'a> From<&'a PathBuf> for Tokenizer<'a> {
                 }
             }
             Err(err) => {
-                panic!(ParserError::CannotReadFile(err.to_string()))
+                panic!("Cannot read file {:?}: {}", file, err)
             }
         }
     }
-- 
2.43.0


From f756314848bf105dd367b65ce5dece77034d60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:04 +0000
Subject: [PATCH 31/56] fix: the carriage return at the end of a cut off file
 is not part of the line

---
 src/parser/chars.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 3489406..7e8dbfc 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -94,13 +94,13 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
         if *c == '\n' {
             tokenizer.line_index += 1;
             tokenizer.line_position = 0;
-            if retval.last() == Some(&'\r') {
-                retval.pop(); // the line ends with CRLF
-            }
             break;
         }
         retval.push(*c);
     }
+    if retval.last() == Some(&'\r') {
+        retval.pop(); // the line ends with CRLF
+    }
     retval.iter().collect()
 }
 
-- 
2.43.0


From c5fe8f1322826e0d19ef32a0d4783feb4b624864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:52 +0000
Subject: [PATCH 32/56] fix: blanks at the end of a payee or include line are
 not part of the name

---
 src/parser/include.rs          | 3 ++-
 src/parser/tokenizers/payee.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 20216b5..aaf33df 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -20,7 +20,8 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         parent.push('/');
         parent_path.push_str(parent.as_str());
     }
-    let included = chars::get_line(tokenizer);
+    let line = chars::get_line(tokenizer);
+    let included = line.trim_end();
     let entries: Vec<GlobResult> = if included.contains(|c| c == '*' || c == '?' || c == '[') {
         let pattern = format!("{}{}", Pattern::escape(&parent_path), included);
         glob(&pattern)
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index 3a54245..e16c47b 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -44,7 +44,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
                     2 =>
                     // description
                     {
-                        name = m.as_str().to_string()
+                        name = m.as_str().trim().to_string()
                     }
                     3 =>
                     // note
-- 
2.43.0


From 1604622fa72df6a11dd23f21bd0743bde3095927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:36 +0000
Subject: [PATCH 33/56] fix: multiply a posting without money in an automated
 transaction

---
 src/models/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index e88a882..e601b9f 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -260,11 +260,17 @@ impl ParsedLedger {
                                     )),
                                     Some(alias) => {
                                         if alias == "" {
-                                            Some(Money::from((
-                                                p.amount.clone().unwrap().get_commodity().unwrap(),
-                                                p.amount.clone().unwrap().get_amount()
-                                                    * auto_posting.money_amount.clone().unwrap(),
-                                            )))
+                                            let amount = p.amount.clone().unwrap();
+                                            Some(match amount.get_commodity() {
+                                                Some(commodity) => Money::from((
+                                                    commodity,
+                                                    amount.get_amount()
+                                                        * auto_posting.money_amount.clone().unwrap(),
+                                                )),
+                                                // No money, as when an account already has the
+                                                // balance it is assigned
+                                                None => Money::Zero,
+                                            })
                                         } else {
                                             match self.commodities.get(&alias) {
                                                 Ok(_) => {} // do nothing
-- 
2.43.0


From a740d84593e99df08c67c55936e8d045b8a3884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:00 +0000
Subject: [PATCH 34/56] fix: a factor in an automated transaction is not a
 commodity

---
 src/models/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index e601b9f..2ef8c5b 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -69,7 +69,13 @@ impl ParsedLedger {
                 }
                 // Currencies
                 if let Some(c) = &p.money_currency {
-                    commodity_strs.insert(c.clone());
+                    // A bare number in an automated transaction is a factor
+                    let factor =
+                        matches!(transaction.transaction_type, TransactionType::Automated)
+                            && c.is_empty();
+                    if !factor {
+                        commodity_strs.insert(c.clone());
+                    }
                 }
                 if let Some(c) = &p.cost_currency {
                     commodity_strs.insert(c.clone());
-- 
2.43.0


From d6bf465bfbeb4e9a87429732acb4d913c753d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:31 +0000
Subject: [PATCH 35/56] fix: accept blanks before every operator of a chain of
 products

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 1102558..1c14ff1 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -48,7 +48,7 @@ or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
 and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
 comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
 additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
-multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
+multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
     (unary ~ ws* ~ expr) |
-- 
2.43.0


From a2ffd16bcae3fd2c171b0e34386ad59a1e054a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:09 +0000
Subject: [PATCH 36/56] fix: a slash inside a quoted expression does not start
 a regular expression

---
 src/models/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 249670e..7715ae7 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -69,7 +69,7 @@ impl<T> Transaction<T> {
                     }
                     if c == '"' {
                         in_string = !in_string;
-                    } else if c == '/' {
+                    } else if (c == '/') & !in_string {
                         in_regex = !in_regex;
                         current.push(c);
                     } else {
-- 
2.43.0


From 8bd070731ec8c474fb19984807b69037b43a57aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:50 +0000
Subject: [PATCH 37/56] fix: options of the init file stay options when
 patterns follow --

---
 src/app.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app.rs b/src/app.rs
index e3cc7a3..30df118 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -123,6 +123,9 @@ pub struct CommonOpts {
 /// Entry point for the command line app
 pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     // println!("{:?}", args);
+    // What comes after "--" are patterns, not options
+    let options_end = args.iter().position(|arg| arg == "--");
+    let mut patterns = args.split_off(options_end.unwrap_or(args.len()));
     let mut possible_paths: Vec<String> = Vec::new();
     for i in 0..args.len() {
         if args[i] == "--init-file" {
@@ -196,6 +199,7 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
             }
         }
     }
+    args.append(&mut patterns);
     let opt: Opt = Opt::from_iter(args.iter());
 
     // Print options
-- 
2.43.0


From 316ed5eeae27848e1928a6049d42564edfd8a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:30 +0000
Subject: [PATCH 38/56] fix: blanks at the end of a line do not belong to the
 comment

---
 src/parser/tokenizers/comment.rs     | 2 +-
 src/parser/tokenizers/transaction.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/comment.rs b/src/parser/tokenizers/comment.rs
index 27e9061..15d75c5 100644
--- a/src/parser/tokenizers/comment.rs
+++ b/src/parser/tokenizers/comment.rs
@@ -30,6 +30,6 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Comment {
     tokenizer.line_position += 1;
     chars::consume_whitespaces(tokenizer);
     return Comment {
-        comment: chars::get_line(tokenizer),
+        comment: chars::get_line(tokenizer).trim_end().to_string(),
     };
 }
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index c07bf65..ada6419 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -70,7 +70,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item),
+            comment: parse_string(next_item).trim_end().to_string(),
         });
     }
 
-- 
2.43.0


From 6829a39853a7c39e887ef0e7d6622152660f3a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:09 +0000
Subject: [PATCH 39/56] fix: a posting whose amount is left out keeps its tags

---
 src/models/transaction.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 7715ae7..7afc9e2 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -299,6 +299,8 @@ impl Transaction<Posting> {
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
+        let mut fill_comments = Vec::new();
+        let mut fill_tags = RefCell::new(Vec::new());
         let mut postings: Vec<Posting> = Vec::new();
 
         for p in self.postings.get_mut().iter() {
@@ -400,6 +402,8 @@ impl Transaction<Posting> {
                 // We do nothing, but this is the account for the empty post
                 fill_account = p.account.clone();
                 fill_payee = p.payee.clone();
+                fill_comments = p.comments.clone();
+                fill_tags = p.tags.clone();
             }
         }
 
@@ -445,8 +449,8 @@ impl Transaction<Posting> {
                     balance: None,
                     cost: None,
                     kind: PostingType::Real,
-                    comments: self.comments.clone(),
-                    tags: RefCell::new(self.tags.clone()),
+                    comments: fill_comments.clone(),
+                    tags: fill_tags.clone(),
                     payee: fill_payee.clone(),
                     transaction: self.postings.borrow()[0].transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
-- 
2.43.0


From 29a4910aca8ba7eeb8c05c4165322dd545795e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:09 +0000
Subject: [PATCH 40/56] fix: the semicolon does not belong to the comment of a
 transaction

---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index ada6419..7336134 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -70,7 +70,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item).trim_end().to_string(),
+            comment: parse_string(next_item)[1..].trim().to_string(),
         });
     }
 
-- 
2.43.0


From 30847cdac14b25dd50b0abb2c3b33bb8c732cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:42 +0000
Subject: [PATCH 41/56] fix: a quoted commodity in an expression is the one
 without quotes

---
 src/parser/value_expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index f0507bb..a647a05 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -1,4 +1,4 @@
-use super::utils::parse_rational;
+use super::utils::{parse_rational, parse_string};
 use super::{GrammarParser, Rule};
 use crate::app;
 use crate::models::{Account, Currency, Money, Payee, Posting, Transaction};
@@ -458,11 +458,11 @@ fn build_ast_from_expr(
                     let child = money.next().unwrap();
                     match child.as_rule() {
                         Rule::number => Node::Money {
-                            currency: money.next().unwrap().as_str().to_string(),
+                            currency: parse_string(money.next().unwrap()),
                             amount: parse_rational(child),
                         },
                         Rule::currency => Node::Money {
-                            currency: child.as_str().to_string(),
+                            currency: parse_string(child),
                             amount: parse_rational(money.next().unwrap()),
                         },
                         unknown => panic!("Unknown rule: {:?}", unknown),
-- 
2.43.0


From 8c6ca0cf9645aa23cdf89be01a67a722a86497b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:58 +0000
Subject: [PATCH 42/56] fix: the day of a conversion is the one on the local
 clock, like that of the options

---
 src/commands/balance.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index f8309cb..f57e5be 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -1,6 +1,7 @@
 use std::collections::{HashMap, HashSet};
 use std::path::PathBuf;
 
+use chrono::Local;
 use colored::Colorize;
 
 use crate::models::{conversion, Account, Balance, Currency, HasName, Money};
@@ -138,7 +139,7 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         if let Ok(currency) = ledger.commodities.get(currency_string) {
             multipliers = conversion(
                 currency.clone(),
-                app::now().naive_utc().date(),
+                app::now().with_timezone(&Local).naive_local().date(),
                 &ledger.prices,
             );
             let mut updated_balances = Vec::new();
-- 
2.43.0


From 8f7f6bc4ff4af2a940e8389085cbe8456c5a846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:46 +0000
Subject: [PATCH 43/56] fix: refuse a second amount, cost or assertion instead
 of letting it replace the first

---
 src/parser/tokenizers/transaction.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 7336134..abe543c 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -297,6 +297,17 @@ fn parse_posting(
     chars::consume_whitespaces(tokenizer);
     // Amounts
     loop {
+        // There is one of each kind at most
+        if match tokenizer.get_char() {
+            None | Some('\n') | Some(';') => false,
+            Some('@') => posting.cost_amount.is_some(),
+            Some('=') => posting.balance_amount.is_some(),
+            _ => posting.money_amount.is_some() | posting.amount_expr.is_some(),
+        } {
+            return Err(ParserError::UnexpectedInput(Some(
+                "Unexpected text after the amount".to_string(),
+            )));
+        }
         match tokenizer.get_char() {
             Some('(') => {
                 // This is a value expression
-- 
2.43.0


From 0e36895dba2850326d40cb97846fc7e9af39b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:08 +0000
Subject: [PATCH 44/56] fix: refuse an expression as the amount of a
 transaction instead of leaving it blank

---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index abe543c..fc110e7 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -311,6 +311,11 @@ fn parse_posting(
         match tokenizer.get_char() {
             Some('(') => {
                 // This is a value expression
+                if !matches!(transaction_type, TransactionType::Automated) {
+                    return Err(ParserError::UnexpectedInput(Some(
+                        "Expressions are only for automated transactions".to_string(),
+                    )));
+                }
                 posting.amount_expr = Some(chars::get_value_expression(tokenizer));
             }
             Some('\n') => break,
-- 
2.43.0


From 2c19c16f2827f084e62797e624c5a934c28a64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 45/56] fix: a remark after the name of a payee directive is
 not part of the name

---
 src/parser/tokenizers/payee.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index e16c47b..aedaf89 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -13,8 +13,8 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
         r"(payee) +"            , // payee directive
-        r"(.*)"                 , // description
-        r"(  ;.*)?"             , // note
+        r"(.*?)"                , // description
+        r"(  ;.*)?$"            , // note
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
-- 
2.43.0


From e78267e0bbfc5a4fb71f26c45157e9ca4fd1401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:06 +0000
Subject: [PATCH 46/56] fix: values in the init file keep their blanks, also
 after an equals sign

---
 src/app.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 30df118..ebd2ffe 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -168,8 +168,11 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                             line.starts_with("--"),
                             format!("Bad config file {:?}\n{}", file, line)
                         );
-                        let mut iter = line.split_whitespace();
-                        let option = iter.next().unwrap();
+                        // The value follows an equals sign or blanks and may have blanks inside
+                        let (option, value) = match line.find(char::is_whitespace) {
+                            Some(n) if !line[..n].contains('=') => (&line[..n], line[n..].trim()),
+                            _ => (line.trim_end(), ""),
+                        };
                         let option_name = option.split('=').next().unwrap();
                         if !args.iter().any(|arg| {
                             // Arguments can also be given as --option=value or -ovalue
@@ -181,13 +184,8 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                                 | (aliases.get(x).unwrap_or(&String::new()) == option_name)
                         }) {
                             args.push(option.to_string());
-                            let mut rest = String::new();
-                            for arg in iter {
-                                rest.push_str(" ");
-                                rest.push_str(arg);
-                            }
-                            if rest.len() > 0 {
-                                args.push(rest.trim().to_string());
+                            if value.len() > 0 {
+                                args.push(value.to_string());
                             }
                         }
                     }
-- 
2.43.0


From 5df19d2cac1a4caf5e515df821787c12196e698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 47/56] fix: find the init file in a home directory whose name
 is not UTF-8

---
 src/app.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index ebd2ffe..bdc65fd 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -126,21 +126,25 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     // What comes after "--" are patterns, not options
     let options_end = args.iter().position(|arg| arg == "--");
     let mut patterns = args.split_off(options_end.unwrap_or(args.len()));
-    let mut possible_paths: Vec<String> = Vec::new();
+    let mut possible_paths: Vec<PathBuf> = Vec::new();
     for i in 0..args.len() {
         if args[i] == "--init-file" {
-            possible_paths.push(args[i + 1].clone());
+            possible_paths.push(PathBuf::from(&args[i + 1]));
             break;
         } else if args[i].starts_with("--init-file=") {
-            possible_paths.push(args[i]["--init-file=".len()..].to_string());
+            possible_paths.push(PathBuf::from(&args[i]["--init-file=".len()..]));
             break;
         }
     }
-    possible_paths.push(shellexpand::tilde("~/.ledgerrc").to_string());
-    possible_paths.push(".ledgerrc".to_string());
+    // The name of the home directory need not be text
+    possible_paths.push(match env::var_os("HOME") {
+        Some(home) if home.len() > 0 => Path::new(&home).join(".ledgerrc"),
+        _ => PathBuf::from(shellexpand::tilde("~/.ledgerrc").to_string()),
+    });
+    possible_paths.push(PathBuf::from(".ledgerrc"));
     let mut config_file = None;
     for path in possible_paths.iter() {
-        let file = Path::new(path);
+        let file = path.as_path();
         match file.metadata() {
             // It may exist even if it cannot be read
             Err(e) if e.kind() == ErrorKind::NotFound => continue,
-- 
2.43.0


From d456e053d16519bfb8f30d7127f8af638cdb742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 48/56] fix: bounds with something before or after the date are
 not read as that date

---
 src/app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index bdc65fd..ffd4074 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -267,8 +267,8 @@ pub fn now() -> DateTime<Utc> {
 /// A parser for date expressions
 pub fn date_parser(date: &str) -> Result<NaiveDate, Error> {
     lazy_static! {
-        static ref RE_MONTH: Regex = Regex::new(r"(\d{4})[/-](\d\d?)$").unwrap();
-        static ref RE_DATE: Regex = Regex::new(r"(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
+        static ref RE_MONTH: Regex = Regex::new(r"^([0-9]{4})[/-]([0-9]{1,2})$").unwrap();
+        static ref RE_DATE: Regex = Regex::new(r"^([0-9]{4})[/-]([0-9]{1,2})[/-]([0-9]{1,2})$").unwrap();
     }
     if RE_DATE.is_match(date) {
         let captures = RE_DATE.captures(date).unwrap();
-- 
2.43.0


From a86859541b69fd2d0758e10a97b08b184e7a74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 49/56] fix: a description may start with a quoted word

---
 src/grammar/grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 1c14ff1..8742d5f 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -20,8 +20,8 @@ transaction = {
 code = { "(" ~ string ~ ")" }
 status = { "*"| "!" }
 quote = _{"\"" | "'"}
-payee = { string | (!"|" ~ !";" ~!end ~ ANY)* }
-description = { string | (!"|" ~ !";" ~!end ~ ANY)* }
+payee = { (string ~ &(ws* ~ (";" | end))) | (!"|" ~ !";" ~!end ~ ANY)* }
+description = { (string ~ &(ws* ~ ("|" | ";" | end))) | (!"|" ~ !";" ~!end ~ ANY)* }
 comment = {";" ~ ANY*}
 
 date = { year ~ date_sep ~ month ~ date_sep ~ day }
-- 
2.43.0


From 946e6be66e8057057595725a392febbe96623e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 50/56] fix: a query that fails leaves no half register report

---
 src/commands/register.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/commands/register.rs b/src/commands/register.rs
index 5fecc64..ab3e663 100644
--- a/src/commands/register.rs
+++ b/src/commands/register.rs
@@ -49,10 +49,25 @@ pub fn execute(options: &CommonOpts) -> Result<(), Error> {
         None
     };
 
+    // Select the postings first, so that a query that fails does not leave half a report
+    let mut selected: Vec<bool> = vec![];
+    for t in ledger.transactions.iter() {
+        for p in t.postings.borrow().iter() {
+            selected.push(filter::filter(
+                &options,
+                &node,
+                t,
+                p,
+                &mut ledger.commodities,
+            )?);
+        }
+    }
+    let mut selected = selected.into_iter();
+
     for t in ledger.transactions.iter() {
         let mut counter = 0;
         for p in t.postings.borrow().iter() {
-            if !filter::filter(&options, &node, t, p, &mut ledger.commodities)? {
+            if !selected.next().unwrap() {
                 continue;
             }
             counter += 1;
-- 
2.43.0


From c440b71abaf00fae8d8921d1b26918e165b598a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 51/56] fix: what is left over after an expression is refused

---
 src/parser/value_expr.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index a647a05..e20be72 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -6,6 +6,7 @@ use crate::List;
 use chrono::NaiveDate;
 
 use num::{abs, BigRational};
+use pest::iterators::Pair;
 use pest::Parser;
 use regex::Regex;
 use std::borrow::Borrow;
@@ -13,6 +14,22 @@ use std::cmp::Ordering;
 use std::collections::HashMap;
 use std::rc::Rc;
 
+/// Parses the whole expression. Nothing may be left over but closing parentheses, which are let pass
+fn parse_expression(expression: &str) -> Pair<Rule> {
+    let parsed = GrammarParser::parse(Rule::value_expr, expression)
+        .expect("unsuccessful parse") // unwrap the parse result
+        .next()
+        .unwrap();
+    let rest = &expression[parsed.as_span().end()..];
+    assert!(
+        rest.trim_matches(|c: char| c == ')' || c.is_whitespace())
+            .is_empty(),
+        "unsuccessful parse: {:?} is left over",
+        rest
+    );
+    parsed.into_inner().next().unwrap()
+}
+
 /// Builds the abstract syntax tree, to be able to evaluate expressions
 ///
 /// This all comes from the defined grammar.pest
@@ -20,13 +37,7 @@ pub fn build_root_node_from_expression(
     expression: &str,
     regexes: &mut HashMap<String, Regex>,
 ) -> Node {
-    let parsed = GrammarParser::parse(Rule::value_expr, expression)
-        .expect("unsuccessful parse") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner()
-        .next()
-        .unwrap();
+    let parsed = parse_expression(expression);
 
     // Build the abstract syntax tree
     build_ast_from_expr(parsed, regexes)
@@ -39,13 +50,7 @@ pub fn eval_expression(
     commodities: &mut List<Currency>,
     regexes: &mut HashMap<String, Regex>,
 ) -> EvalResult {
-    let parsed = GrammarParser::parse(Rule::value_expr, expression)
-        .expect("unsuccessful parse") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner()
-        .next()
-        .unwrap();
+    let parsed = parse_expression(expression);
 
     // Build the abstract syntax tree
     let root = build_ast_from_expr(parsed, regexes);
-- 
2.43.0


From 015e10b5641ee04c95f74aa07f6e31b12103369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:27 +0000
Subject: [PATCH 52/56] fix: expressions that compare unlike things are refused

---
 src/parser/value_expr.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index e20be72..e8cb792 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -281,10 +281,19 @@ pub fn eval(
                     },
                     _ => EvalResult::Boolean(left == right),
                 },
-                Binary::Lt => EvalResult::Boolean(left < right),
-                Binary::Gt => EvalResult::Boolean(left > right),
-                Binary::Ge => EvalResult::Boolean(left >= right),
-                Binary::Le => EvalResult::Boolean(left <= right),
+                Binary::Lt | Binary::Gt | Binary::Ge | Binary::Le => {
+                    let ordering = match left.partial_cmp(&right) {
+                        Some(ordering) => ordering,
+                        None => panic!("Can't compare {:?} and {:?}", left, right),
+                    };
+                    EvalResult::Boolean(match op {
+                        Binary::Lt => ordering == Ordering::Less,
+                        Binary::Gt => ordering == Ordering::Greater,
+                        Binary::Ge => ordering != Ordering::Less,
+                        Binary::Le => ordering != Ordering::Greater,
+                        _ => unreachable!(),
+                    })
+                }
                 Binary::Add | Binary::Subtract => {
                     if let EvalResult::Number(lhs) = left {
                         if let EvalResult::Number(rhs) = right {
-- 
2.43.0


From 9c6371eaef2d9b657b2b83bc59399f21f9850a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:27 +0000
Subject: [PATCH 53/56] fix: queries with an operator or expr that has nothing
 to work on are refused

---
 src/filter.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/filter.rs b/src/filter.rs
index a53f7dc..9fa6aaf 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -76,6 +76,7 @@ pub fn filter_expression(
 pub fn preprocess_query(query: &Vec<String>) -> String {
     let mut expression = String::new();
     let mut and = false;
+    let mut operator = false; // an operator was found and the next term was not
     let mut first = true;
     let mut expr = false;
     for raw_term in query.iter() {
@@ -83,13 +84,17 @@ pub fn preprocess_query(query: &Vec<String>) -> String {
         if term.len() == 0 {
             continue;
         }
-        if term == "and" {
-            and = true;
-            continue;
-        } else if term == "or" {
-            and = false;
+        if (term == "and") | (term == "or") {
+            assert!(
+                !first & !operator & !expr,
+                "Found {:?}, expected a term or an expression",
+                term
+            );
+            and = term == "and";
+            operator = true;
             continue;
         } else if term == "expr" {
+            assert!(!expr, "Found {:?}, expected an expression", term);
             expr = true;
             continue;
         }
@@ -130,8 +135,14 @@ pub fn preprocess_query(query: &Vec<String>) -> String {
         }
         expression.push_str(")");
         and = false;
+        operator = false;
         expr = false;
         first = false;
     }
+    assert!(
+        !operator & !expr,
+        "A term or an expression is missing at the end of {:?}",
+        query
+    );
     format!("({})", expression)
 }
-- 
2.43.0


From fb9618b082379944060b4d590054f19eeb8e2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:08 +0000
Subject: [PATCH 54/56] fix: names in the register are only marked as cut when
 something is left out

---
 src/commands/register.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/register.rs b/src/commands/register.rs
index ab3e663..5fa07c0 100644
--- a/src/commands/register.rs
+++ b/src/commands/register.rs
@@ -143,7 +143,7 @@ pub fn execute(options: &CommonOpts) -> Result<(), Error> {
 }
 
 fn clip(string: &String, width: usize) -> String {
-    if string.len() < width - 3 {
+    if string.trim_end().chars().count() <= width - 3 {
         string.to_string()
     } else {
         let mut ret = String::new();
-- 
2.43.0


From 05d66b8bcbbecfa403f806f9f02719e56607c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:10 +0000
Subject: [PATCH 55/56] fix: a quote that is not closed is refused instead of
 being read as part of a name

---
 src/parser/chars.rs                  | 21 +++++++++++++++------
 src/parser/tokenizers/account.rs     |  2 +-
 src/parser/tokenizers/commodity.rs   |  2 +-
 src/parser/tokenizers/payee.rs       |  2 +-
 src/parser/tokenizers/tag.rs         |  2 +-
 src/parser/tokenizers/transaction.rs |  4 ++--
 6 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 7e8dbfc..d3b6597 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -116,8 +116,8 @@ pub(super) fn unread_line(tokenizer: &mut Tokenizer) {
     tokenizer.line_position = 0;
 }
 
-/// Returns a word (whatever is between spaces)
-pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
+/// Returns a word (whatever is between spaces or quotes)
+pub(super) fn get_string(tokenizer: &mut Tokenizer) -> Result<String, ParserError> {
     consume_whitespaces(tokenizer);
     let mut retval: Vec<char> = Vec::new();
     let mut quote = false;
@@ -125,13 +125,17 @@ pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
         if *c == '\n' {
             break;
         } else if *c == '"' {
-            if retval.len() == 0 {
-                quote = true
-            } else if quote {
+            if quote && retval.len() > 0 {
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
+                quote = false;
                 break;
+            } else if quote || retval.len() > 0 {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Unexpected quote".to_string(),
+                )));
             }
+            quote = true
         } else if (c.is_whitespace() | c.is_numeric() | (*c == '.') | (*c == '-') | (*c == ';'))
             & !quote
         {
@@ -142,6 +146,11 @@ pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
         tokenizer.position += 1;
         tokenizer.line_position += 1;
     }
+    if quote {
+        return Err(ParserError::UnexpectedInput(Some(
+            "Quote is not closed".to_string(),
+        )));
+    }
     consume_whitespaces(tokenizer);
-    retval.iter().collect()
+    Ok(retval.iter().collect())
 }
diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index 7e97a7f..e6be638 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -61,7 +61,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
             ';' => {
                 chars::get_line(tokenizer);
             } // ignore comments
-            _ => match chars::get_string(tokenizer).as_str() {
+            _ => match chars::get_string(tokenizer)?.as_str() {
                 "note" => note = Some(chars::get_line(tokenizer).trim().to_string()),
                 "isin" => isin = Some(chars::get_line(tokenizer).trim().to_string()),
                 "alias" => {
diff --git a/src/parser/tokenizers/commodity.rs b/src/parser/tokenizers/commodity.rs
index fdd95f2..20ba852 100644
--- a/src/parser/tokenizers/commodity.rs
+++ b/src/parser/tokenizers/commodity.rs
@@ -31,7 +31,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Currency, ParserError>
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
             ';' => comments.push(comment::parse(tokenizer)),
-            _ => match chars::get_string(tokenizer).as_str() {
+            _ => match chars::get_string(tokenizer)?.as_str() {
                 "note" => note = Some(chars::get_line(tokenizer).trim().to_string()),
                 "alias" => {
                     aliases.insert(chars::get_line(tokenizer).trim().to_string());
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index aedaf89..9697464 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -64,7 +64,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
             ';' => comments.push(comment::parse(tokenizer)),
-            _ => match chars::get_string(tokenizer).as_str() {
+            _ => match chars::get_string(tokenizer)?.as_str() {
                 "alias" => {
                     alias.insert(chars::get_line(tokenizer).trim().to_string());
                 }
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index cdb58c1..c5a8ef1 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -56,7 +56,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
             ';' => {
                 chars::get_line(tokenizer);
             } // Skip comments
-            _ => match chars::get_string(tokenizer).as_str() {
+            _ => match chars::get_string(tokenizer)?.as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
                 }
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index fc110e7..dd34ab6 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -402,14 +402,14 @@ fn parse_money(tokenizer: &mut Tokenizer) -> Result<(BigRational, String), Parse
                     return Err(e);
                 }
             };
-            currency = chars::get_string(tokenizer);
+            currency = chars::get_string(tokenizer)?;
             if currency.starts_with("\"") {
                 let n = currency.len();
                 currency = currency[1..n - 1].to_string();
             }
         }
         Some(_) => {
-            currency = chars::get_string(tokenizer);
+            currency = chars::get_string(tokenizer)?;
             if currency.starts_with("\"") {
                 let n = currency.len();
                 currency = currency[1..n - 1].to_string();
-- 
2.43.0


From c35b22868ac162e535ec288b65fde454db42cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 56/56] fix: a minus sign behind the decimal separator is
 refused instead of being moved

---
 src/parser/tokenizers/transaction.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index dd34ab6..5b446dd 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -446,6 +446,12 @@ fn parse_amount(tokenizer: &mut Tokenizer) -> Result<BigRational, ParserError> {
                     decimal = true
                 }
             }
+            // The sign goes before the digits and the decimal separator
+            Some('-') if decimal => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Wrong number format".to_string(),
+                )));
+            }
             Some(c) if (c == '-') | c.is_numeric() => {
                 num.push(c);
                 if decimal {
-- 
2.43.0

