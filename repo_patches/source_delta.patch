From fb2d94c0a620e10310b618e5761d30a667a1d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:34 +0000
Subject: [PATCH 01/49] fix: print the sign of amounts between -1 and 0 and
 round amounts correctly

---
 src/models/money.rs | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 70a8bca..72e0b84 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -12,7 +12,6 @@ use crate::models::{Currency, HasName};
 use num::traits::Inv;
 use std::borrow::Borrow;
 use std::cmp::Ordering;
-use std::str::FromStr;
 
 /// Money representation: an amount and a currency
 ///
@@ -100,36 +99,27 @@ impl Display for Money {
         match self {
             Money::Zero => write!(f, "{}", "0"),
             Money::Money { amount, currency } => {
-                // num = trunc + fract
                 let decimals: usize = currency.get_precision();
-                let base: i32 = 10;
-                let mut integer_part = amount.trunc();
-                let decimal_part = (amount.fract() * BigInt::from(base.pow(decimals as u32 + 2)))
-                    .abs()
-                    .trunc();
-                let mut decimal_str =
-                    format!("{:0width$}", decimal_part.numer(), width = decimals + 2);
-                decimal_str.truncate(decimals + 1);
-
-                let mut decimal = if u64::from_str(&decimal_str).unwrap() % 10 >= 5 {
-                    u64::from_str(&decimal_str).unwrap() / 10 + 1
-                } else {
-                    u64::from_str(&decimal_str).unwrap() / 10
-                };
-                let len = format!("{}", decimal).len();
-                if len == decimals + 1 {
-                    decimal = 0;
-                    if integer_part.is_positive() {
-                        integer_part += BigInt::from(1);
-                    } else {
-                        integer_part -= BigInt::from(1);
-                    }
+                // Work with the amount scaled to an integer, rounded half away from zero
+                let mut base = BigInt::from(1);
+                for _ in 0..decimals {
+                    base *= 10;
+                }
+                let scaled = (amount.abs() * base.clone()).round().to_integer();
+                let sign = if amount.is_negative() { "-" } else { "" };
+                let integer_part = scaled.clone() / base.clone();
+                if decimals == 0 {
+                    return write!(f, "{}{} {}", sign, integer_part, currency.get_name());
                 }
-                decimal_str = format!("{:0width$}", decimal, width = decimals);
+                // Pad with zeroes on the left
+                let digits = (scaled % base).to_string();
+                let mut decimal_str = "0".repeat(decimals - digits.len());
+                decimal_str.push_str(digits.as_str());
                 write!(
                     f,
-                    "{}.{} {}",
-                    integer_part.numer(),
+                    "{}{}.{} {}",
+                    sign,
+                    integer_part,
                     decimal_str,
                     currency.get_name()
                 )
-- 
2.43.0


From dd1f64c095089bd6757162b31ca4d6917f9c7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:35 +0000
Subject: [PATCH 02/49] fix: evaluate every operand of a chain of operators

---
 src/parser/value_expr.rs | 46 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index d95ab10..a2b226d 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -413,30 +413,30 @@ fn build_ast_from_expr(
             let mut pair = pair.into_inner();
             let lhspair = pair.next().unwrap();
             let lhs = build_ast_from_expr(lhspair, regexes);
-            match pair.next() {
-                None => lhs,
-                Some(x) => {
-                    let op = match rule {
-                        Rule::or_expr => Binary::Or,
-                        Rule::and_expr => Binary::And,
-                        _ => match x.as_str() {
-                            "+" => Binary::Add,
-                            "-" => Binary::Subtract,
-                            "*" => Binary::Mult,
-                            "/" => Binary::Div,
-                            "=~" | "==" => Binary::Eq,
-                            "<" => Binary::Lt,
-                            ">" => Binary::Gt,
-                            "<=" => Binary::Le,
-                            ">=" => Binary::Ge,
-                            x => unreachable!("{}", x),
-                        },
-                    };
-                    let rhspair = pair.next().unwrap();
-                    let rhs = build_ast_from_expr(rhspair, regexes);
-                    parse_binary_expr(op, lhs, rhs)
-                }
+            let mut lhs = lhs;
+            // Operators of the same precedence associate to the left
+            while let Some(x) = pair.next() {
+                let op = match rule {
+                    Rule::or_expr => Binary::Or,
+                    Rule::and_expr => Binary::And,
+                    _ => match x.as_str() {
+                        "+" => Binary::Add,
+                        "-" => Binary::Subtract,
+                        "*" => Binary::Mult,
+                        "/" => Binary::Div,
+                        "=~" | "==" => Binary::Eq,
+                        "<" => Binary::Lt,
+                        ">" => Binary::Gt,
+                        "<=" => Binary::Le,
+                        ">=" => Binary::Ge,
+                        x => unreachable!("{}", x),
+                    },
+                };
+                let rhspair = pair.next().unwrap();
+                let rhs = build_ast_from_expr(rhspair, regexes);
+                lhs = parse_binary_expr(op, lhs, rhs);
             }
+            lhs
         }
         Rule::primary => {
             let mut inner = pair.into_inner();
-- 
2.43.0


From 15e2b172467037cb779c6c1da64c4b46aed5710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:36 +0000
Subject: [PATCH 03/49] fix: evaluate the != and ! operators the grammar
 accepts

---
 src/parser/value_expr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index a2b226d..1e9c762 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -276,6 +276,7 @@ pub fn eval(
                     },
                     _ => EvalResult::Boolean(left == right),
                 },
+                Binary::Ne => EvalResult::Boolean(left != right),
                 Binary::Lt => EvalResult::Boolean(left < right),
                 Binary::Gt => EvalResult::Boolean(left > right),
                 Binary::Ge => EvalResult::Boolean(left >= right),
@@ -389,6 +390,7 @@ pub enum Binary {
     Or,
     And,
     Eq,
+    Ne,
     Ge,
     Gt,
     Le,
@@ -425,6 +427,7 @@ fn build_ast_from_expr(
                         "*" => Binary::Mult,
                         "/" => Binary::Div,
                         "=~" | "==" => Binary::Eq,
+                        "!=" => Binary::Ne,
                         "<" => Binary::Lt,
                         ">" => Binary::Gt,
                         "<=" => Binary::Le,
@@ -449,7 +452,7 @@ fn build_ast_from_expr(
                         "has_tag" => Unary::HasTag,
                         "tag" => Unary::Tag,
                         "to_date" => Unary::ToDate,
-                        "not" => Unary::Not,
+                        "not" | "!" => Unary::Not,
                         "any" => Unary::Any,
                         unknown => panic!("Unknown expr: {:?}", unknown),
                     };
-- 
2.43.0


From 204e626a2b41634f25b99a185b8c617e9c320644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:38 +0000
Subject: [PATCH 04/49] fix: a leading minus negates its operand, not the rest
 of the expression

---
 src/grammar/grammar.pest | 4 +++-
 src/parser/value_expr.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 22d4594..37a5b76 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -51,6 +51,7 @@ additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr
 multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
+    (neg ~ ws* ~ primary) |
     (unary ~ ws* ~ expr) |
     term |
     (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ("," ~ ws* ~ expr ~ ws*)* ~ ")")
@@ -103,7 +104,8 @@ add = { "+" | "-" }
 mult = { "*" | "/" }
 and = {"&" | "and"}
 or = {"|" | "or" }
-unary = { "-" | "!" | "not" }
+neg = { "-" }
+unary = { "!" | "not" }
 function = { "abs" | "has_tag" | "to_date" | "any" | "tag" }
 comparison = { eq | ne | ge | gt | le | lt }
 eq = { "=~" | "=="}
diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 1e9c762..9518d27 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -445,7 +445,7 @@ fn build_ast_from_expr(
             let mut inner = pair.into_inner();
             let first = inner.next().unwrap();
             match first.as_rule() {
-                Rule::function | Rule::unary => {
+                Rule::function | Rule::unary | Rule::neg => {
                     let op = match first.as_str() {
                         "abs" => Unary::Abs,
                         "-" => Unary::Neg,
-- 
2.43.0


From a8cbc6a58d49b1896fedb1ea422bae4380eb9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:39 +0000
Subject: [PATCH 05/49] fix: comments below a tag directive no longer hang the
 parser

---
 src/parser/tokenizers/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index c0f54cb..52ef6b5 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -47,7 +47,9 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     }
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
-            ';' => {} // Skip comments
+            ';' => {
+                chars::get_line(tokenizer);
+            } // Skip comments
             _ => match chars::get_string(tokenizer).as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
-- 
2.43.0


From 6c1af420b509321190c0d1457f18f1105d95b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:40 +0000
Subject: [PATCH 06/49] fix: a posting followed by a single space does not
 swallow the next line

---
 src/parser/tokenizers/transaction.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1d508b2..a0bd531 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -212,7 +212,12 @@ fn parse_posting(
             break;
         } else {
             let d = tokenizer.next();
-            if d.is_whitespace() | (c == '\n') {
+            if d.is_whitespace() {
+                if d == '\n' {
+                    tokenizer.line_index -= 1;
+                    tokenizer.position -= 1;
+                    finished = true;
+                }
                 break;
             } else {
                 account.push(c);
-- 
2.43.0


From f93c16abf3f5053075035b72685249c284416566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:41 +0000
Subject: [PATCH 07/49] fix: an automated posting at the end of the file no
 longer hangs the parser

---
 src/parser/tokenizers/transaction.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index a0bd531..b8307c0 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -337,8 +337,11 @@ fn parse_posting(
                     TransactionType::Automated => {
                         posting.amount_expr = Some(chars::get_line(tokenizer));
 
-                        tokenizer.line_index -= 1;
-                        tokenizer.position -= 1;
+                        // Go back to the end of the line, if there was one
+                        if tokenizer.content[..tokenizer.position].ends_with(&['\n']) {
+                            tokenizer.line_index -= 1;
+                            tokenizer.position -= 1;
+                        }
                     }
                 },
             },
-- 
2.43.0


From 0f1e5738962529ef2feb64b7eee71a51ad5a126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:42 +0000
Subject: [PATCH 08/49] fix: accept a posting without amount at the very end of
 the file

---
 src/parser/tokenizers/transaction.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index b8307c0..70411cc 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -199,6 +199,11 @@ fn parse_posting(
     let mut finished = false;
     // Get the account name
     loop {
+        if tokenizer.get_char().is_none() {
+            // The file ends with the account
+            finished = true;
+            break;
+        }
         let c = tokenizer.next();
         if !c.is_whitespace() {
             account.push(c);
@@ -210,7 +215,7 @@ fn parse_posting(
                 finished = true;
             }
             break;
-        } else {
+        } else if tokenizer.get_char().is_some() {
             let d = tokenizer.next();
             if d.is_whitespace() {
                 if d == '\n' {
-- 
2.43.0


From a28f4d2b453c5f6ff83db0311247522094b429bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:43 +0000
Subject: [PATCH 09/49] fix: record the code of a transaction

---
 src/parser/tokenizers/transaction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 70411cc..9473321 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -42,6 +42,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
         next_item = parsed.next().unwrap()
     }
     if next_item.as_rule() == Rule::code {
+        transaction.code = next_item.into_inner().next().map(parse_string);
         next_item = parsed.next().unwrap()
     }
     if next_item.as_rule() == Rule::description {
-- 
2.43.0


From 51c27d7de96e3b1fa65a12a4029c8249dcdb9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:44 +0000
Subject: [PATCH 10/49] fix: the price implied by a total cost is never
 negative

---
 src/models/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 89cc367..5e3c071 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -427,7 +427,7 @@ impl ParsedLedger {
                                 amount: p.cost_amount.clone().unwrap()
                                     / match p.cost_type.as_ref().unwrap() {
                                         PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().get_amount()
+                                            posting.amount.as_ref().unwrap().abs().get_amount()
                                         }
                                         PriceType::PerUnit => BigRational::from(BigInt::from(1)),
                                     },
-- 
2.43.0


From 629da91c620eff7ce92a46b95afa208fbcafe911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:45 +0000
Subject: [PATCH 11/49] fix: record implied prices only once when there are
 automated transactions

---
 src/models/mod.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 5e3c071..119d11a 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -309,25 +309,11 @@ impl ParsedLedger {
 
             // Balance the transactions
             for t in transactions.iter_mut() {
-                let date = t.date.unwrap().clone();
                 // output_balances(&balances);
-                let balance = match t.balance(&mut balances, no_checks) {
-                    Ok(balance) => balance,
-                    Err(e) => {
-                        eprintln!("{}", t);
-                        return Err(e.into());
-                    }
-                };
-                if balance.len() == 2 {
-                    let vec = balance.iter().map(|(_, x)| x.abs()).collect::<Vec<Money>>();
-
-                    let commodity = vec[0].get_commodity().unwrap().clone();
-                    let price = Money::Money {
-                        amount: vec[1].get_amount() / vec[0].get_amount(),
-                        currency: vec[1].get_commodity().unwrap().clone(),
-                    };
-
-                    prices.push(Price::new(date, commodity, price));
+                // The prices of these transactions have already been recorded
+                if let Err(e) = t.balance(&mut balances, no_checks) {
+                    eprintln!("{}", t);
+                    return Err(e.into());
                 }
             }
         }
-- 
2.43.0


From 228f8d79da911bee32b909a6a7e787cdd817df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:46 +0000
Subject: [PATCH 12/49] fix: per unit costs of virtual postings keep the sign
 of the amount

---
 src/models/transaction.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 8295fe3..439f8ee 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -239,12 +239,7 @@ fn total_balance(postings: &Vec<Posting>, kind: PostingType) -> Balance {
                         Money::Money { amount, .. } => amount.clone(),
                     };
                     let money = Money::Money {
-                        amount: units
-                            * (if p.amount.as_ref().unwrap().is_negative() {
-                                -BigInt::from(1)
-                            } else {
-                                BigInt::from(1)
-                            }),
+                        amount: units,
                         currency: currency.clone(),
                     };
                     Balance::from(money)
-- 
2.43.0


From 55c36e921fb5ab90509ac4c66ee584512caa4c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:47 +0000
Subject: [PATCH 13/49] fix: collapse balance rows only into the single child
 with the same balance

---
 src/commands/balance.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index dc15ab0..8cd3eb3 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -204,6 +204,14 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                 if vec_balances[index + 1].0.split(":").count() != (n + 1) {
                     break;
                 }
+                // Only collapse into a child account that has all the balance of its parent
+                let (parent, parent_balance) = &vec_balances[index];
+                let (child, child_balance) = &vec_balances[index + 1];
+                if !child.starts_with(format!("{}:", parent).as_str())
+                    | !(parent_balance.clone() - child_balance.clone()).is_zero()
+                {
+                    break;
+                }
                 for j in (index + 2)..num_bal {
                     let name = vec_balances[j].0.clone();
                     if !name.starts_with(account) {
-- 
2.43.0


From ef98466c552e001b9d33c98647a7bb88501c1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:48 +0000
Subject: [PATCH 14/49] fix: keep the tags of included files

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cadf9bb..92841bd 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -60,6 +60,7 @@ impl ParsedLedger {
         self.comments.append(&mut other.comments);
         self.transactions.append(&mut other.transactions);
         self.prices.append(&mut other.prices);
+        self.tags.append(&mut other.tags);
     }
 
     pub fn len(&self) -> usize {
-- 
2.43.0


From 9ddfe67f1cc9dd221a654f7efbb36c48f042ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:49 +0000
Subject: [PATCH 15/49] fix: errors in the first line are reported without
 overflow

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 92841bd..9f51383 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -221,7 +221,7 @@ impl<'a> Tokenizer<'a> {
         let string = self.content.iter().collect::<String>();
 
         for (i, line) in string.lines().enumerate() {
-            if i < self.line_index - 1 {
+            if i + 1 < self.line_index {
                 continue;
             };
             if i > self.line_index {
-- 
2.43.0


From 3709a24df6ceeeb1b766b8ec1efebdda853b0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:50 +0000
Subject: [PATCH 16/49] fix: detect include cycles whatever the spelling of the
 path

---
 src/parser/include.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dd4e708..53fd24e 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -23,7 +23,13 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         match entry {
             Ok(path) => {
                 files.push(path.clone());
-                match tokenizer.seen_files.get(&path) {
+                // The same file can be written in several ways
+                let canonical = path.canonicalize().ok();
+                match tokenizer
+                    .seen_files
+                    .iter()
+                    .find(|x| (**x == &path) | (canonical.is_some() & (x.canonicalize().ok() == canonical)))
+                {
                     Some(_) => {
                         return Err(tokenizer.error(ParserError::IncludeLoop(format!(
                             "Cycle detected. {:?}",
-- 
2.43.0


From 7e8b42b1c630db6f50d32461be194a35e1ec9a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:51 +0000
Subject: [PATCH 17/49] fix: report included files that cannot be read as
 errors

---
 src/parser/include.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 53fd24e..18d348b 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -39,7 +39,9 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
                     None => (),
                 }
             }
-            Err(e) => eprintln!("{:?}", e),
+            Err(e) => {
+                return Err(tokenizer.error(ParserError::CannotReadFile(format!("{:?}", e))))
+            }
         }
     }
     let mut items: ParsedLedger = ParsedLedger::new();
-- 
2.43.0


From f1d997b62d0592a04c1686807e987360ab583df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:53 +0000
Subject: [PATCH 18/49] fix: appending a list keeps the elements that are
 already known

---
 src/list.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 7461a88..11286e3 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -131,8 +131,13 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
 impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
-        self.list.extend(other.to_owned().list.into_iter());
-        self.aliases.extend(other.to_owned().aliases.into_iter());
+        // What is already known is kept
+        for (name, element) in other.list.iter() {
+            self.list.entry(name.clone()).or_insert(element.clone());
+        }
+        for (alias, name) in other.aliases.iter() {
+            self.aliases.entry(alias.clone()).or_insert(name.clone());
+        }
     }
 }
 
-- 
2.43.0


From c09d65e81471bdcca9fd8d73a2783a9784675216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:54 +0000
Subject: [PATCH 19/49] fix: the partial order of amounts agrees with their
 equality and order

---
 src/models/money.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 72e0b84..eb139b9 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -43,7 +43,7 @@ use std::cmp::Ordering;
 /// # assert_eq!(*b2.balance.get(&Some(eur.clone())).unwrap(), m1);
 /// # assert_eq!(*b2.balance.get(&Some(usd.clone())).unwrap(), d1);
 /// ```
-#[derive(Clone, Debug, PartialOrd)]
+#[derive(Clone, Debug)]
 pub enum Money {
     Zero,
     Money {
@@ -173,6 +173,16 @@ impl Ord for Money {
         }
     }
 }
+
+impl PartialOrd for Money {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        match (self.get_commodity(), other.get_commodity()) {
+            (Some(this), Some(that)) if this != that => None,
+            _ => Some(self.cmp(other)),
+        }
+    }
+}
+
 impl Mul<BigRational> for Money {
     type Output = Money;
 
-- 
2.43.0


From 8d118dd84dc8413154ae910b887b6d0fc1f2bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:36 +0000
Subject: [PATCH 20/49] fix: the commodities of a balance have a fixed order

---
 src/models/balance.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/models/balance.rs b/src/models/balance.rs
index 39a6785..1f0c1a0 100644
--- a/src/models/balance.rs
+++ b/src/models/balance.rs
@@ -1,7 +1,7 @@
 use crate::error::LedgerError;
 use crate::models::{Currency, Money};
-use std::collections::hash_map::Iter;
-use std::collections::HashMap;
+use std::collections::btree_map::Iter;
+use std::collections::BTreeMap;
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::ops::{Add, Neg, Sub};
@@ -9,13 +9,13 @@ use std::rc::Rc;
 
 #[derive(Debug, Clone)]
 pub struct Balance {
-    pub balance: HashMap<Option<Rc<Currency>>, Money>,
+    pub balance: BTreeMap<Option<Rc<Currency>>, Money>,
 }
 
 impl Balance {
     pub fn new() -> Balance {
         Balance {
-            balance: HashMap::new(),
+            balance: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl<'a> Neg for Balance {
     type Output = Balance;
 
     fn neg(self) -> Self::Output {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         for (k, v) in self.balance {
             balance.insert(k, -v);
         }
@@ -93,7 +93,7 @@ impl Add for Balance {
     type Output = Balance;
 
     fn add(self, rhs: Self) -> Self::Output {
-        let mut total: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut total: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         let balances = vec![self, rhs];
         for bal in balances.iter() {
             for (cur, money) in bal.balance.iter() {
@@ -136,7 +136,7 @@ impl Sub for Balance {
 // Converter
 impl From<Money> for Balance {
     fn from(money: Money) -> Self {
-        let mut balance: HashMap<Option<Rc<Currency>>, Money> = HashMap::new();
+        let mut balance: BTreeMap<Option<Rc<Currency>>, Money> = BTreeMap::new();
         match money {
             Money::Zero => balance.insert(None, Money::Zero),
             Money::Money { ref currency, .. } => {
-- 
2.43.0


From 3d97e799089d718f84f3a3b2487c5ae829ee403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:38 +0000
Subject: [PATCH 21/49] fix: lookups in lists do not depend on the order of
 hash maps

---
 src/list.rs       | 12 ++++++------
 src/models/mod.rs |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 11286e3..7606cb5 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -1,6 +1,6 @@
 use regex::Regex;
-use std::collections::hash_map::{Iter, Values};
-use std::collections::HashMap;
+use std::collections::btree_map::{Iter, Values};
+use std::collections::{BTreeMap, HashMap};
 use std::fmt::Debug;
 use std::hash::Hash;
 use std::rc::Rc;
@@ -19,15 +19,15 @@ use crate::LedgerError;
 /// - Retrieving elements with a regular expression
 #[derive(Debug, Clone)]
 pub struct List<T> {
-    aliases: HashMap<String, String>,
-    list: HashMap<String, Rc<T>>,
+    aliases: BTreeMap<String, String>,
+    list: BTreeMap<String, Rc<T>>,
     matches: HashMap<String, Option<String>>,
 }
 
 impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> List<T> {
     pub fn new() -> Self {
-        let aliases: HashMap<String, String> = HashMap::new();
-        let list: HashMap<String, Rc<T>> = HashMap::new();
+        let aliases: BTreeMap<String, String> = BTreeMap::new();
+        let list: BTreeMap<String, Rc<T>> = BTreeMap::new();
         let matches: HashMap<String, Option<String>> = HashMap::new();
         List {
             aliases,
diff --git a/src/models/mod.rs b/src/models/mod.rs
index 119d11a..40d610b 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -1,5 +1,5 @@
 use num::rational::BigRational;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 
 pub use account::Account;
 pub use balance::Balance;
@@ -55,9 +55,9 @@ impl Ledger {
 impl ParsedLedger {
     /// Creates a proper ledger from a parsed ledger
     pub fn to_ledger(mut self, no_checks: bool) -> Result<Ledger, Error> {
-        let mut commodity_strs = HashSet::<String>::new();
-        let mut account_strs = HashSet::<String>::new();
-        let mut payee_strs = HashSet::<String>::new();
+        let mut commodity_strs = BTreeSet::<String>::new();
+        let mut account_strs = BTreeSet::<String>::new();
+        let mut payee_strs = BTreeSet::<String>::new();
 
         // 1. Populate the directive lists
 
-- 
2.43.0


From 8ee894f97834344172d587162edb9d446bf623ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:40 +0000
Subject: [PATCH 22/49] fix: conversions do not depend on the order of hash
 maps

---
 src/models/price.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index ab180b9..6321a1c 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -3,7 +3,7 @@ use chrono::{Duration, NaiveDate};
 use num::rational::BigRational;
 use num::BigInt;
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt;
 use std::fmt::{Display, Formatter};
 use std::rc::Rc;
@@ -57,7 +57,7 @@ pub fn conversion(
     };
     let mut graph = Graph::from_prices(prices, source.clone());
     let mut distances = HashMap::new();
-    let mut paths: HashMap<Rc<Node>, Vec<Rc<Edge>>> = HashMap::new();
+    let mut paths: BTreeMap<Rc<Node>, Vec<Rc<Edge>>> = BTreeMap::new();
     let mut queue = vec![];
 
     // Initialize distances
@@ -146,7 +146,7 @@ pub fn conversion(
     multipliers
 }
 
-#[derive(Debug, Eq, PartialEq, Hash, Clone)]
+#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Hash, Clone)]
 pub struct Node {
     pub(crate) currency: Rc<Currency>,
     date: NaiveDate,
@@ -178,12 +178,12 @@ struct Graph {
 
 impl Graph {
     fn from_prices(prices: &Vec<Price>, source: Node) -> Self {
-        let mut nodes = HashMap::new();
+        let mut nodes = BTreeMap::new();
         let mut edges = Vec::new();
-        let mut currency_dates = HashSet::new();
+        let mut currency_dates = BTreeSet::new();
         currency_dates.insert((source.currency.clone(), source.date));
         // Remove redundant prices and create the nodes
-        let mut prices_nodup = HashMap::new();
+        let mut prices_nodup = BTreeMap::new();
         for p in prices.iter() {
             if p.date > source.date {
                 continue;
-- 
2.43.0


From 94f5ff9155ad5f015f5c26d9b8bde78946b55e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:42 +0000
Subject: [PATCH 23/49] fix: short options of the command line also win over
 the configuration file

---
 src/app.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app.rs b/src/app.rs
index 0c2d7eb..555db65 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -142,6 +142,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     if let Some(file) = config_file {
         let mut aliases = HashMap::new();
         aliases.insert("-f".to_string(), "--file".to_string());
+        aliases.insert("-d".to_string(), "--depth".to_string());
+        aliases.insert("-b".to_string(), "--begin".to_string());
+        aliases.insert("-e".to_string(), "--end".to_string());
+        aliases.insert("-p".to_string(), "--period".to_string());
         let contents = read_to_string(file).unwrap();
         for line in contents.lines() {
             let option = line.trim_start();
-- 
2.43.0


From b6fc6fdd5afd0bfe4b4f6112192531ef501ddf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:11 +0000
Subject: [PATCH 24/49] fix: options of the command line win over the
 configuration file in any spelling

---
 src/app.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 555db65..b5213f8 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -141,11 +141,11 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
     }
     if let Some(file) = config_file {
         let mut aliases = HashMap::new();
-        aliases.insert("-f".to_string(), "--file".to_string());
-        aliases.insert("-d".to_string(), "--depth".to_string());
-        aliases.insert("-b".to_string(), "--begin".to_string());
-        aliases.insert("-e".to_string(), "--end".to_string());
-        aliases.insert("-p".to_string(), "--period".to_string());
+        aliases.insert("-f", "--file");
+        aliases.insert("-d", "--depth");
+        aliases.insert("-b", "--begin");
+        aliases.insert("-e", "--end");
+        aliases.insert("-p", "--period");
         let contents = read_to_string(file).unwrap();
         for line in contents.lines() {
             let option = line.trim_start();
@@ -158,8 +158,13 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
                         );
                         let mut iter = line.split_whitespace();
                         let option = iter.next().unwrap();
+                        // The value can also be given as --option=value or right after a short option
+                        let name = option.split('=').next().unwrap();
                         if !args.iter().any(|x| {
-                            (x == option) | (aliases.get(x).unwrap_or(&String::new()) == option)
+                            (x.split('=').next().unwrap() == name)
+                                | aliases
+                                    .iter()
+                                    .any(|(short, long)| (*long == name) & x.starts_with(*short))
                         }) {
                             args.push(option.to_string());
                             let mut rest = String::new();
-- 
2.43.0


From d1dd19c5c95b7cb742ea3d45af5d8fed95295f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:32 +0000
Subject: [PATCH 25/49] fix: an elided posting keeps its own tags

---
 src/models/transaction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 439f8ee..d17ac1d 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -290,6 +290,7 @@ impl Transaction<Posting> {
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
+        let mut fill_tags = RefCell::new(vec![]);
         let mut postings: Vec<Posting> = Vec::new();
 
         for p in self.postings.get_mut().iter() {
@@ -391,6 +392,7 @@ impl Transaction<Posting> {
                 // We do nothing, but this is the account for the empty post
                 fill_account = p.account.clone();
                 fill_payee = p.payee.clone();
+                fill_tags = p.tags.clone();
             }
         }
 
@@ -437,7 +439,7 @@ impl Transaction<Posting> {
                     cost: None,
                     kind: PostingType::Real,
                     comments: self.comments.clone(),
-                    tags: RefCell::new(self.tags.clone()),
+                    tags: fill_tags.clone(),
                     payee: fill_payee.clone(),
                     transaction: self.postings.borrow()[0].transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
-- 
2.43.0


From 8a61fd6965006897fc675bb940f4d63b45c3b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:30 +0000
Subject: [PATCH 26/49] fix: the words and and or after a number are operators,
 not its currency

---
 src/grammar/grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 37a5b76..791fe11 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -59,7 +59,8 @@ primary = {
 
 
 term = _{ variable | money | number | regex | string }
-money = { (number ~ ws* ~ currency) | (currency ~ ws* ~ number) }
+// The words "and" and "or" after a number are operators, not its currency
+money = { (number ~ ws* ~ !((and | or) ~ (ws | "(")) ~ currency) | (currency ~ ws* ~ number) }
 currency = { string | unquoted }
 regex = { "/" ~ (!"/" ~ ANY)* ~ "/"}
 string = {
-- 
2.43.0


From 7d96825dc5f0d31aa169c8ce740e60a856a0330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 27/49] fix: accept spaces between chained multiplications and
 divisions in value expressions

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 791fe11..8f9ecc3 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -48,7 +48,7 @@ or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
 and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
 comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
 additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
-multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
+multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
     (neg ~ ws* ~ primary) |
-- 
2.43.0


From a9aad4384c278f0e40fda1fcae5d31880d757737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:25 +0000
Subject: [PATCH 28/49] fix: account names may begin with any letter, not only
 a one-byte one

A posting whose account begins with a character of several bytes made the parser panic
(byte slice inside a character).
---
 src/parser/tokenizers/transaction.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 9473321..6fa15a5 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -232,8 +232,8 @@ fn parse_posting(
         }
     }
     // See if it is a virtual account
-    match &account[0..1] {
-        "(" => {
+    match account.chars().next() {
+        Some('(') => {
             posting_type = PostingType::Virtual;
             if account.pop().unwrap() != ')' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -241,7 +241,7 @@ fn parse_posting(
                 )));
             }
         }
-        "[" => {
+        Some('[') => {
             posting_type = PostingType::VirtualMustBalance;
             if account.pop().unwrap() != ']' {
                 return Err(ParserError::UnexpectedInput(Some(
-- 
2.43.0


From 641ad7d6741d48247f640930fa43221655b270fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:35 +0000
Subject: [PATCH 29/49] fix: the comment of a transaction's first line does not
 contain its semicolon

Comments on lines of their own are stored without it, and the semicolon became part of the
name of the tag that the comment defines.
---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 6fa15a5..67c6d12 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -55,7 +55,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item),
+            comment: parse_string(next_item)[1..].trim_start().to_string(),
         });
     }
 
-- 
2.43.0


From 1572ebb49c6f65e44de33e8ae53c9c6ff181cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 30/49] fix: the carriage return of a CRLF line end is not part
 of the line

It became part of comments, so that tags written as :tag: were not recognised in such files.
---
 src/parser/chars.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 2c44973..0d6f78b 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -94,6 +94,9 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
         if *c == '\n' {
             tokenizer.line_index += 1;
             tokenizer.line_position = 0;
+            if retval.last() == Some(&'\r') {
+                retval.pop();
+            }
             break;
         }
         retval.push(*c);
-- 
2.43.0


From 75f7d55e90d72c1e5e2d584bb4f0a37f28950469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:27 +0000
Subject: [PATCH 31/49] fix: a value expression is the amount of its posting

Outside automated transactions the expression was read and then dropped: the posting was
treated as if it had no amount, so any amount was accepted on the other side.
---
 src/models/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 40d610b..a6bb37a 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -156,13 +156,17 @@ impl ParsedLedger {
         //
         let mut transactions = Vec::new();
         let mut automated_transactions = Vec::new();
+        // Value expressions can mention new commodities
+        let mut commodities = self.commodities.clone();
 
         for parsed in self.transactions.iter() {
-            let (mut t, mut auto, mut new_prices) = self._transaction_to_ledger(parsed)?;
+            let (mut t, mut auto, mut new_prices) =
+                self._transaction_to_ledger(parsed, &mut commodities)?;
             transactions.append(&mut t);
             automated_transactions.append(&mut auto);
             prices.append(&mut new_prices);
         }
+        self.commodities = commodities;
 
         // Now sort the transactions vector by date
         transactions.sort_by(|a, b| a.date.unwrap().cmp(&b.date.unwrap()));
@@ -329,6 +333,7 @@ impl ParsedLedger {
     fn _transaction_to_ledger(
         &self,
         parsed: &Transaction<tokenizers::transaction::RawPosting>,
+        commodities: &mut List<Currency>,
     ) -> Result<
         (
             Vec<Transaction<Posting>>,
@@ -388,6 +393,14 @@ impl ParsedLedger {
                             self.commodities.get(&c.as_str()).unwrap().clone(),
                             p.money_amount.clone().unwrap(),
                         )));
+                    } else if let Some(expression) = &p.amount_expr {
+                        posting.amount = Some(value_expr::eval_value_expression(
+                            expression,
+                            &posting,
+                            &transaction,
+                            commodities,
+                            &mut HashMap::new(),
+                        ));
                     }
                     if let Some(c) = &p.cost_currency {
                         let posting_currency = self
-- 
2.43.0


From 9e6f0ac0db042563826ce0a3198ae0a605a33fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 32/49] fix: text after a value expression is not silently
 dropped

Everything up to the end of the line was taken as the expression, of which only the first
parenthesis was evaluated: an asserted balance after it was never checked.
---
 src/parser/chars.rs                  | 4 ++++
 src/parser/tokenizers/transaction.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 0d6f78b..9a65e9f 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -81,8 +81,12 @@ pub(super) fn get_value_expression(tokenizer: &mut Tokenizer) -> String {
         } else if *c == ';' {
             break;
         }
+        let closed = (*c == ')') & (open == close);
         retval.push(*c);
         tokenizer.position += 1;
+        if closed {
+            break;
+        }
     }
     retval.iter().collect()
 }
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 67c6d12..2524e26 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -282,7 +282,7 @@ fn parse_posting(
     // Amounts
     loop {
         match tokenizer.get_char() {
-            Some('(') => {
+            Some('(') if posting.amount_expr.is_none() => {
                 // This is a value expression
                 posting.amount_expr = Some(chars::get_value_expression(tokenizer));
             }
@@ -333,6 +333,11 @@ fn parse_posting(
                 posting.cost_amount = Some(money.0);
                 posting.cost_currency = Some(money.1);
             }
+            _ if posting.amount_expr.is_some() => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Unexpected text after the value expression".to_string(),
+                )));
+            }
             _ => match parse_money(tokenizer) {
                 Ok(money) => {
                     posting.money_amount = Some(money.0);
-- 
2.43.0


From d25ae9f3d4f65b16c1334441659bc8d7e8dd2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:48 +0000
Subject: [PATCH 33/49] fix: a second amount, cost or asserted balance on a
 posting is an error

The last one silently replaced the others.
---
 src/parser/tokenizers/transaction.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 2524e26..4f3d249 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -292,7 +292,7 @@ fn parse_posting(
                 posting.comments.push(comment::parse(tokenizer));
                 return Ok(posting);
             }
-            Some('=') => {
+            Some('=') if posting.balance_amount.is_none() => {
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
                 chars::consume_whitespaces(tokenizer);
@@ -306,7 +306,7 @@ fn parse_posting(
                 posting.balance_amount = Some(money.0);
                 posting.balance_currency = Some(money.1);
             }
-            Some('@') => {
+            Some('@') if posting.cost_amount.is_none() => {
                 if posting.money_amount.is_none() {
                     return Err(ParserError::UnexpectedInput(Some(
                         "Amount not found".to_string(),
@@ -333,9 +333,14 @@ fn parse_posting(
                 posting.cost_amount = Some(money.0);
                 posting.cost_currency = Some(money.1);
             }
-            _ if posting.amount_expr.is_some() => {
+            Some('=') | Some('@') => {
                 return Err(ParserError::UnexpectedInput(Some(
-                    "Unexpected text after the value expression".to_string(),
+                    "Repeated cost or balance".to_string(),
+                )));
+            }
+            _ if posting.amount_expr.is_some() | posting.money_amount.is_some() => {
+                return Err(ParserError::UnexpectedInput(Some(
+                    "Unexpected text after the amount".to_string(),
                 )));
             }
             _ => match parse_money(tokenizer) {
-- 
2.43.0


From 6034532ff1eb6f1e874bbce6e446c0075a75f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:01 +0000
Subject: [PATCH 34/49] fix: the name of a payee directive ends before its note
 and trailing blanks

The note was never recognised and became, like trailing blanks, part of the payee's name, so
that the directive did not apply to the payee of the transactions.
---
 src/parser/tokenizers/payee.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index a0c0ff0..e13b9ac 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -13,8 +13,8 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
         r"(payee) +"            , // payee directive
-        r"(.*)"                 , // description
-        r"(  ;.*)?"             , // note
+        r"(.*?)"                , // description
+        r"(  ;.*)?$"            , // note
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
@@ -38,7 +38,7 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
                     2 =>
                     // description
                     {
-                        name = m.as_str().to_string()
+                        name = m.as_str().trim().to_string()
                     }
                     3 =>
                     // note
-- 
2.43.0


From 17c526f8976bda1762d96bb6ac35ab39ea15c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:43 +0000
Subject: [PATCH 35/49] fix: --init-file=path names the configuration file too

---
 src/app.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/app.rs b/src/app.rs
index b5213f8..80228b5 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -128,6 +128,10 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
             possible_paths.push(args[i + 1].clone());
             break;
         }
+        if let Some(path) = args[i].strip_prefix("--init-file=") {
+            possible_paths.push(path.to_string());
+            break;
+        }
     }
     possible_paths.push(shellexpand::tilde("~/.ledgerrc").to_string());
     possible_paths.push(".ledgerrc".to_string());
-- 
2.43.0


From 48a98e99943f19b5600c2ae172dab6ad47fa9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:22 +0000
Subject: [PATCH 36/49] fix: a date with other text before it is not the date
 it ends with

---
 src/app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 80228b5..b16dd83 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -246,8 +246,8 @@ pub fn run_app(mut args: Vec<String>) -> Result<(), ()> {
 /// A parser for date expressions
 pub fn date_parser(date: &str) -> Result<NaiveDate, Error> {
     lazy_static! {
-        static ref RE_MONTH: Regex = Regex::new(r"(\d{4})[/-](\d\d?)$").unwrap();
-        static ref RE_DATE: Regex = Regex::new(r"(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
+        static ref RE_MONTH: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)$").unwrap();
+        static ref RE_DATE: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
     }
     if RE_DATE.is_match(date) {
         let captures = RE_DATE.captures(date).unwrap();
-- 
2.43.0


From 047dd9e46d322db70aab12284dbef0f7e1fd99f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:41 +0000
Subject: [PATCH 37/49] fix: an impossible date on the command line is reported

---
 src/app.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index b16dd83..baaaf4d 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -249,31 +249,34 @@ pub fn date_parser(date: &str) -> Result<NaiveDate, Error> {
         static ref RE_MONTH: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)$").unwrap();
         static ref RE_DATE: Regex = Regex::new(r"^(\d{4})[/-](\d\d?)[/-](\d\d?)$").unwrap();
     }
+    let invalid = || Error {
+        message: vec![format!("Invalid date {}", date)
+            .as_str()
+            .bold()
+            .bright_red()],
+    };
     if RE_DATE.is_match(date) {
         let captures = RE_DATE.captures(date).unwrap();
-        Ok(NaiveDate::from_ymd(
+        NaiveDate::from_ymd_opt(
             captures.get(1).unwrap().as_str().parse::<i32>().unwrap(),
             captures.get(2).unwrap().as_str().parse::<u32>().unwrap(),
             captures.get(3).unwrap().as_str().parse::<u32>().unwrap(),
-        ))
+        )
+        .ok_or_else(invalid)
     } else if RE_MONTH.is_match(date) {
         let captures = RE_MONTH.captures(date).unwrap();
-        Ok(NaiveDate::from_ymd(
+        NaiveDate::from_ymd_opt(
             captures.get(1).unwrap().as_str().parse::<i32>().unwrap(),
             captures.get(2).unwrap().as_str().parse::<u32>().unwrap(),
             1,
-        ))
+        )
+        .ok_or_else(invalid)
     } else {
         match two_timer::parse(date, None) {
             Ok((t1, _t2, _b)) => Ok(t1.date()),
             Err(e) => {
                 eprintln!("{:?}", e);
-                Err(Error {
-                    message: vec![format!("Invalid date {}", date)
-                        .as_str()
-                        .bold()
-                        .bright_red()],
-                })
+                Err(invalid())
             }
         }
     }
-- 
2.43.0


From 3ee9a7a6300dfb7e056b539ae837d3ebe0889526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:44 +0000
Subject: [PATCH 38/49] fix: an include cycle is reported at the line of the
 include

---
 src/parser/include.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index 18d348b..a9294bb 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -18,6 +18,8 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
         parent.push('/');
         pattern.push_str(parent.as_str());
     }
+    // Errors are about this line, not about the one after it
+    let (line_index, line_position) = (tokenizer.line_index, tokenizer.line_position);
     pattern.push_str(chars::get_line(tokenizer).as_str());
     for entry in glob(&pattern).expect("Failed to read glob pattern") {
         match entry {
@@ -31,6 +33,8 @@ pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
                     .find(|x| (**x == &path) | (canonical.is_some() & (x.canonicalize().ok() == canonical)))
                 {
                     Some(_) => {
+                        tokenizer.line_index = line_index;
+                        tokenizer.line_position = line_position;
                         return Err(tokenizer.error(ParserError::IncludeLoop(format!(
                             "Cycle detected. {:?}",
                             &path
-- 
2.43.0


From 52462cbce36e7244e628eb858e7195605ed42a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 39/49] fix: a quoted commodity of a value expression loses its
 quotes

---
 src/parser/value_expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index 9518d27..4c10381 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -1,4 +1,4 @@
-use super::utils::parse_rational;
+use super::utils::{parse_rational, parse_string};
 use super::{GrammarParser, Rule};
 use crate::app;
 use crate::models::{Account, Currency, Money, Payee, Posting, Transaction};
@@ -463,11 +463,11 @@ fn build_ast_from_expr(
                     let child = money.next().unwrap();
                     match child.as_rule() {
                         Rule::number => Node::Money {
-                            currency: money.next().unwrap().as_str().to_string(),
+                            currency: parse_string(money.next().unwrap()),
                             amount: parse_rational(child),
                         },
                         Rule::currency => Node::Money {
-                            currency: child.as_str().to_string(),
+                            currency: parse_string(child),
                             amount: parse_rational(money.next().unwrap()),
                         },
                         unknown => panic!("Unknown rule: {:?}", unknown),
-- 
2.43.0


From eabf4e024e1f039f26d2d674e59736b14d8fb97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 40/49] fix: the hours from 20 to 23 are times

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 8f9ecc3..89dfe8e 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -32,7 +32,7 @@ month = {("1" ~ ("0" | "1" | "2")) | ("0"? ~ ASCII_NONZERO_DIGIT)}
 day = {("3" ~ ("0" | "1")) |
 	(("1" | "2") ~ ASCII_DIGIT ) |
     ("0"? ~ ASCII_NONZERO_DIGIT) }
-hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" ~"1" ~"2" ~"3"))}
+hour = { (("0"|"1") ~ ASCII_DIGIT) | ("2" ~ ("0" | "1" | "2" | "3"))}
 minute = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT }
 second = { ("0"|"1"|"2"|"3"|"4"|"5") ~ ASCII_DIGIT ~ ("." ~ bigint)? }
 
-- 
2.43.0


From 6ac78161e0a86533aadccb5fed5f3770b61d1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 41/49] fix: a word that is almost include is reported

---
 src/parser/include.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index a9294bb..33c7a54 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -6,7 +6,9 @@ use std::path::PathBuf;
 
 /// Handles include directive
 pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
-    chars::consume_str(tokenizer, &"include ".to_string())?;
+    if let Err(e) = chars::consume_str(tokenizer, &"include ".to_string()) {
+        return Err(tokenizer.error(e));
+    }
     let mut pattern = String::new();
     let mut files: Vec<PathBuf> = Vec::new();
     if let Some(current_path) = tokenizer.file {
-- 
2.43.0


From c37d6db2fa8ee92845159630fb52c8237afb579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 42/49] fix: a malformed first line is reported with its file
 and line instead of a panic

---
 src/parser/chars.rs                  |  9 +++++++++
 src/parser/tokenizers/account.rs     |  7 +++++--
 src/parser/tokenizers/commodity.rs   |  9 ++++-----
 src/parser/tokenizers/payee.rs       |  7 +++++--
 src/parser/tokenizers/price.rs       | 14 ++++++++------
 src/parser/tokenizers/tag.rs         |  7 +++++--
 src/parser/tokenizers/transaction.rs | 24 ++++++++++++++++--------
 src/parser/utils.rs                  | 13 ++++++++-----
 8 files changed, 60 insertions(+), 30 deletions(-)

diff --git a/src/parser/chars.rs b/src/parser/chars.rs
index 9a65e9f..c560233 100644
--- a/src/parser/chars.rs
+++ b/src/parser/chars.rs
@@ -108,6 +108,15 @@ pub(super) fn get_line(tokenizer: &mut Tokenizer) -> String {
     retval.iter().collect()
 }
 
+/// The error for a line that has just been read and is not what it should be
+pub(super) fn bad_line(tokenizer: &mut Tokenizer) -> ParserError {
+    // It is about that line, not about the one after it
+    if tokenizer.content[..tokenizer.position].ends_with(&['\n']) {
+        tokenizer.line_index -= 1;
+    }
+    ParserError::UnexpectedInput(None)
+}
+
 /// Returns a word (whatever is between spaces)
 pub(super) fn get_string(tokenizer: &mut Tokenizer) -> String {
     consume_whitespaces(tokenizer);
diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index 90119d0..c5a8385 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -9,12 +9,15 @@ use std::collections::HashSet;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(account) +"        , // directive commodity
+        r"^(account) +"        , // directive commodity
         r"(.*)"                 , // description
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => return Err(chars::bad_line(tokenizer)),
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/commodity.rs b/src/parser/tokenizers/commodity.rs
index bdf43ff..8f73a0e 100644
--- a/src/parser/tokenizers/commodity.rs
+++ b/src/parser/tokenizers/commodity.rs
@@ -11,11 +11,10 @@ use pest::Parser;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Currency, ParserError> {
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::commodity, mystr.as_str())
-        .expect("Could not parse commodity!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
+    let mut parsed = match GrammarParser::parse(Rule::commodity, mystr.as_str()) {
+        Ok(mut parsed) => parsed.next().unwrap().into_inner(),
+        Err(_) => return Err(chars::bad_line(tokenizer)),
+    };
 
     let name = parse_string(parsed.next().unwrap());
     let mut note: Option<String> = None;
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index e13b9ac..01d7242 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -12,13 +12,16 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}{}",
-        r"(payee) +"            , // payee directive
+        r"^(payee) +"            , // payee directive
         r"(.*?)"                , // description
         r"(  ;.*)?$"            , // note
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => return Err(chars::bad_line(tokenizer)),
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/price.rs b/src/parser/tokenizers/price.rs
index 6d0a89e..e1ab5ae 100644
--- a/src/parser/tokenizers/price.rs
+++ b/src/parser/tokenizers/price.rs
@@ -7,12 +7,14 @@ use pest::Parser;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedPrice, ParserError> {
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::price, mystr.as_str())
-        .expect("Could not parse price!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
-    let date = parse_date(parsed.next().unwrap());
+    let mut parsed = match GrammarParser::parse(Rule::price, mystr.as_str()) {
+        Ok(mut parsed) => parsed.next().unwrap().into_inner(),
+        Err(_) => return Err(chars::bad_line(tokenizer)),
+    };
+    let date = match parse_date(parsed.next().unwrap()) {
+        Some(date) => date,
+        None => return Err(chars::bad_line(tokenizer)),
+    };
     let commodity = {
         let time_or_commodity = parsed.next().unwrap();
         match time_or_commodity.as_rule() {
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index 52ef6b5..5d854e7 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -9,12 +9,15 @@ use crate::ParserError;
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     lazy_static! {
         static ref RE: Regex = Regex::new(format!("{}{}",
-        r"(tag) +"        , // tag directive
+        r"^(tag) +"        , // tag directive
         r"(.*)"           , // description
         ).as_str()).unwrap();
     }
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => return Err(chars::bad_line(tokenizer)),
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 4f3d249..d8a8322 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -19,22 +19,30 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>
 /// Parses a transaction
 fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>, Error> {
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::transaction, mystr.as_str())
-        .expect("Could not parse transaction!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
+    let mut parsed = match GrammarParser::parse(Rule::transaction, mystr.as_str()) {
+        Ok(mut parsed) => parsed.next().unwrap().into_inner(),
+        Err(_) => {
+            let e = chars::bad_line(tokenizer);
+            return Err(tokenizer.error(e));
+        }
+    };
 
     let mut transaction = Transaction::<RawPosting>::new(TransactionType::Real);
-    transaction.date = Some(parse_date(parsed.next().unwrap()));
+    transaction.date = parse_date(parsed.next().unwrap());
+    let mut effective = false;
     let mut next_item = parsed.next().unwrap();
     if next_item.as_rule() == Rule::time {
         next_item = parsed.next().unwrap()
     }
     if next_item.as_rule() == Rule::date {
-        transaction.effective_date = Some(parse_date(next_item));
+        transaction.effective_date = parse_date(next_item);
+        effective = true;
         next_item = parsed.next().unwrap()
     }
+    if transaction.date.is_none() | (effective & transaction.effective_date.is_none()) {
+        let e = chars::bad_line(tokenizer);
+        return Err(tokenizer.error(e));
+    }
     if next_item.as_rule() == Rule::time {
         next_item = parsed.next().unwrap()
     }
@@ -315,7 +323,7 @@ fn parse_posting(
 
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
-                if tokenizer.get_char().unwrap() == '@' {
+                if tokenizer.get_char() == Some('@') {
                     tokenizer.position += 1;
                     tokenizer.line_position += 1;
                     posting.cost_type = Some(PriceType::Total);
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 6de27ef..2e62e24 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -6,18 +6,21 @@ use num::{BigInt, BigRational};
 use pest::iterators::Pair;
 use std::str::FromStr;
 
-/// Parses a date
-pub(crate) fn parse_date(date: Pair<Rule>) -> NaiveDate {
+/// Parses a date, if there is such a day
+pub(crate) fn parse_date(date: Pair<Rule>) -> Option<NaiveDate> {
     // Assume date is a Rule::date
     let mut parsed = date.into_inner();
-    let year = i32::from_str(parsed.next().unwrap().as_str()).unwrap();
+    let year = i32::from_str(parsed.next().unwrap().as_str()).ok()?;
     let sep1 = parsed.next().unwrap().as_str();
     let month = u32::from_str(parsed.next().unwrap().as_str()).unwrap();
     let sep2 = parsed.next().unwrap().as_str();
     let day = u32::from_str(parsed.next().unwrap().as_str()).unwrap();
 
-    assert_eq!(sep1, sep2, "wrong date separator");
-    NaiveDate::from_ymd(year, month, day)
+    if sep1 != sep2 {
+        // wrong date separator
+        return None;
+    }
+    NaiveDate::from_ymd_opt(year, month, day)
 }
 
 pub(crate) fn parse_rational(number: Pair<Rule>) -> BigRational {
-- 
2.43.0


From 49ae1a48f1303eee095e76ee83fcbbcf2fe2725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 43/49] fix: a depth of zero in a flat balance report does not
 panic

---
 src/commands/balance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index 8cd3eb3..550d86a 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -112,7 +112,7 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                 temp.sort_by(|a, b| a.0.cmp(&b.0));
                 let mut account = String::new();
                 for (acc, value) in temp.iter() {
-                    if acc.to_string() != account {
+                    if vec_balances.is_empty() || acc.to_string() != account {
                         vec_balances.push((acc.as_str(), value.clone()));
                     } else {
                         let n = vec_balances.len();
-- 
2.43.0


From 7ae2ad23e1de4382e2eb57247f6cab591fa10618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 44/49] fix: a total cost of nothing and a price of zero do not
 divide by zero

---
 src/models/mod.rs   | 29 +++++++++++++++--------------
 src/models/price.rs |  6 ++++++
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index a6bb37a..d7713ed 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -419,20 +419,21 @@ impl ParsedLedger {
                                 amount: amount.clone(),
                             }),
                         };
-                        prices.push(Price::new(
-                            transaction.date.unwrap(),
-                            posting_currency.clone(),
-                            Money::Money {
-                                amount: p.cost_amount.clone().unwrap()
-                                    / match p.cost_type.as_ref().unwrap() {
-                                        PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().abs().get_amount()
-                                        }
-                                        PriceType::PerUnit => BigRational::from(BigInt::from(1)),
-                                    },
-                                currency: amount.get_commodity().unwrap().clone(),
-                            },
-                        ))
+                        let units = match p.cost_type.as_ref().unwrap() {
+                            PriceType::Total => posting.amount.as_ref().unwrap().abs().get_amount(),
+                            PriceType::PerUnit => BigRational::from(BigInt::from(1)),
+                        };
+                        // The total cost of nothing is not a price
+                        if units != BigRational::from(BigInt::from(0)) {
+                            prices.push(Price::new(
+                                transaction.date.unwrap(),
+                                posting_currency.clone(),
+                                Money::Money {
+                                    amount: p.cost_amount.clone().unwrap() / units,
+                                    currency: amount.get_commodity().unwrap().clone(),
+                                },
+                            ))
+                        }
                     }
                     if let Some(c) = &p.balance_currency {
                         posting.balance = Some(Money::from((
diff --git a/src/models/price.rs b/src/models/price.rs
index 6321a1c..2dccf86 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -273,6 +273,12 @@ impl Graph {
                 let mut neighbours = Vec::new();
                 for edge in self.edges.iter() {
                     if edge.from.as_ref() == node {
+                        // Nothing can be valued in a commodity that is worth nothing
+                        if let Some(price) = edge.price.as_ref() {
+                            if price.get_price().is_zero() {
+                                continue;
+                            }
+                        }
                         neighbours.push((edge.to.clone(), edge.clone()));
                     } else if edge.to.as_ref() == node {
                         neighbours.push((edge.from.clone(), edge.clone()));
-- 
2.43.0


From 6599a580474069844769fa7edb0719994afd3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 45/49] fix: an amount after the asserted balance or an
 expression after the amount is reported

---
 src/parser/tokenizers/transaction.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index d8a8322..e45e5b8 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -289,8 +289,12 @@ fn parse_posting(
     chars::consume_whitespaces(tokenizer);
     // Amounts
     loop {
+        // The amount comes before the balance, and there is only one
+        let amount_read = posting.amount_expr.is_some()
+            | posting.money_amount.is_some()
+            | posting.balance_amount.is_some();
         match tokenizer.get_char() {
-            Some('(') if posting.amount_expr.is_none() => {
+            Some('(') if !amount_read => {
                 // This is a value expression
                 posting.amount_expr = Some(chars::get_value_expression(tokenizer));
             }
@@ -346,7 +350,7 @@ fn parse_posting(
                     "Repeated cost or balance".to_string(),
                 )));
             }
-            _ if posting.amount_expr.is_some() | posting.money_amount.is_some() => {
+            _ if amount_read => {
                 return Err(ParserError::UnexpectedInput(Some(
                     "Unexpected text after the amount".to_string(),
                 )));
-- 
2.43.0


From b28893c2a3df2ef5e2c4ce960409aa6c30aee903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 46/49] fix: an invalid pattern of a payee is reported with its
 file and line instead of a panic

---
 src/parser/tokenizers/account.rs | 7 ++++---
 src/parser/tokenizers/payee.rs   | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index c5a8385..4aa7e16 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -70,9 +70,10 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
                 "assert" => {
                     assert.push(chars::get_line(tokenizer).trim().to_string());
                 }
-                "payee" => {
-                    payee.push(Regex::new(chars::get_line(tokenizer).trim()).unwrap());
-                }
+                "payee" => match Regex::new(chars::get_line(tokenizer).trim()) {
+                    Ok(pattern) => payee.push(pattern),
+                    Err(_) => return Err(chars::bad_line(tokenizer)),
+                },
                 "default" => default = true,
                 found => {
                     eprintln!("Error while parsing posting.");
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index 01d7242..0b3f251 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -63,7 +63,11 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
             ';' => comments.push(comment::parse(tokenizer)),
             _ => match chars::get_string(tokenizer).as_str() {
                 "alias" => {
-                    alias.insert(chars::get_line(tokenizer).trim().to_string());
+                    let pattern = chars::get_line(tokenizer).trim().to_string();
+                    if Regex::new(pattern.as_str()).is_err() {
+                        return Err(chars::bad_line(tokenizer));
+                    }
+                    alias.insert(pattern);
                 }
                 _ => {
                     eprintln!("Error while parsing posting.");
-- 
2.43.0


From 4aea932eec89fb791d63b6a48bbebcbe10a334c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 47/49] fix: the aliases of a repeated directive are known and
 those of included files count like the others

---
 src/list.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 7606cb5..377d46c 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -38,15 +38,16 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
 
     /// Inserts an ```element``` in the list
     pub fn insert(&mut self, element: T) {
-        let found = self.list.get(&element.get_name().to_lowercase());
+        // Change the name which will be used as key to lowercase
+        let name = element.get_name().to_string().to_lowercase();
+        // The aliases are also known if the element is repeated
+        for alias in element.get_aliases().iter() {
+            self.aliases.insert(alias.to_lowercase(), name.clone());
+        }
+        let found = self.list.get(&name);
         match found {
             Some(_) => eprintln!("Duplicate element: {:?}", element), // do nothing
             None => {
-                // Change the name which will be used as key to lowercase
-                let name = element.get_name().to_string().to_lowercase();
-                for alias in element.get_aliases().iter() {
-                    self.aliases.insert(alias.to_lowercase(), name.clone());
-                }
                 self.list.insert(name.clone(), Rc::new(element));
             }
         }
@@ -136,7 +137,8 @@ impl<T: Clone> List<T> {
             self.list.entry(name.clone()).or_insert(element.clone());
         }
         for (alias, name) in other.aliases.iter() {
-            self.aliases.entry(alias.clone()).or_insert(name.clone());
+            // An alias that is repeated is that of the last element, as it is within a file
+            self.aliases.insert(alias.clone(), name.clone());
         }
     }
 }
-- 
2.43.0


From 8e4f75d6a1831e06b7c5ef980d9c7647d1adbc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 48/49] fix: a quoted alias of a commodity loses its quotes

---
 src/parser/tokenizers/commodity.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/commodity.rs b/src/parser/tokenizers/commodity.rs
index 8f73a0e..a8dfd8a 100644
--- a/src/parser/tokenizers/commodity.rs
+++ b/src/parser/tokenizers/commodity.rs
@@ -29,7 +29,13 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Currency, ParserError>
             _ => match chars::get_string(tokenizer).as_str() {
                 "note" => note = Some(chars::get_line(tokenizer).trim().to_string()),
                 "alias" => {
-                    aliases.insert(chars::get_line(tokenizer).trim().to_string());
+                    let line = chars::get_line(tokenizer);
+                    let mut alias = line.trim();
+                    // The quotes are not part of the alias
+                    if alias.len() > 2 && alias.starts_with('"') && alias.ends_with('"') {
+                        alias = &alias[1..alias.len() - 1];
+                    }
+                    aliases.insert(alias.to_string());
                 }
                 "format" => format = Some(chars::get_line(tokenizer).trim().to_string()),
                 "default" => default = true,
-- 
2.43.0


From 6728155544e9d929664338a93577e2b5438aff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:46 +0000
Subject: [PATCH 49/49] fix: the rows of a tree follow their parent when
 another account's name sorts in between

---
 src/commands/balance.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index 550d86a..81cc420 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -153,7 +153,12 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
         }
     }
 
-    vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    if flat {
+        vec_balances.sort_by(|a, b| a.0.cmp(b.0));
+    } else {
+        // A row of the tree follows its parent, also when a name such as "A-B" sorts before "A:C"
+        vec_balances.sort_by(|a, b| a.0.split(':').cmp(b.0.split(':')));
+    }
     let num_bal = vec_balances.len();
     let mut index = 0;
     let mut showed_balances = 0;
-- 
2.43.0

