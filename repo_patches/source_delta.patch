From e6d0e2840039ae4d76f02b9cf4d8fca1cb1e0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 1/8] fix: accept empty attribute lists and trailing commas in
 format strings

The documented grammar is
`attributes := '(' [attribute [',' attribute]* [',']] ')'`,
but `{:()}` and `{:(bold,)}` were rejected.
---
 macros/src/format.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 896a3eb..89a43e3 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
-    multi::{many0, many1, separated_list0},
+    multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
@@ -70,8 +70,12 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(<Box<dyn Restyle>>::parse)),
+            opt(terminated(
+                separated_list1(tag(","), <Box<dyn Restyle>>::parse),
+                opt(tag(",")),
+            )),
             |restyles| {
+                let restyles = restyles.unwrap_or_default();
                 Style::default()
                     .with(restyles.as_slice())
                     .diff_from(Style::default())
@@ -185,7 +189,7 @@ impl<'a> Parse<'a> for FormatSpec<'a> {
         let (input, zero) = opt(value(true, tag("0")))(input)?;
         let (input, width) = opt(Count::parse)(input)?;
         let (input, precision) = opt(preceded(tag("."), Count::parse))(input)?;
-        let (input, style) = opt(delimited(tag("("), cut(StyleDiff::parse), tag(")")))(input)?;
+        let (input, style) = opt(delimited(tag("("), cut(StyleDiff::parse), cut(tag(")"))))(input)?;
         let (input, debug_hex_and_format_trait) = opt(alt((
             value((None, FormatTrait::Debug), tag("?")),
             value((Some(DebugHex::Lower), FormatTrait::Debug), tag("x?")),
-- 
2.43.0


From 27a1461389f2a9e2b8e8e84def9735c4526b92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 2/8] fix: apply explicit default attributes in format strings

An explicit `fg=default`, `bg=default` or `normal` was dropped because the
attributes were turned into a `StyleDiff` by comparing against the default
style, so they could not override an outer style.
---
 macros/src/format.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 89a43e3..21762cc 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -9,7 +9,7 @@ use nom::{
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
-use stylish_style::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
+use stylish_style::{Color, Intensity, StyleDiff};
 
 fn identifier(input: &str) -> IResult<&str, &str> {
     recognize(pair(
@@ -48,19 +48,25 @@ impl<'a> Parse<'a> for Intensity {
     }
 }
 
-impl<'a> Parse<'a> for Box<dyn Restyle> {
-    #[allow(trivial_casts)]
+#[derive(Debug, Clone, Copy)]
+enum Attribute {
+    Foreground(Color),
+    Background(Color),
+    Intensity(Intensity),
+}
+
+impl<'a> Parse<'a> for Attribute {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(
                 preceded(tag("fg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Foreground(color)) as _,
+                Self::Foreground,
             ),
             map(
                 preceded(tag("bg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Background(color)) as _,
+                Self::Background,
             ),
-            map(Intensity::parse, |intensity| Box::new(intensity) as _),
+            map(Intensity::parse, Self::Intensity),
         ))(input)
     }
 }
@@ -69,18 +75,19 @@ impl<'a> Parse<'a> for StyleDiff {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
-        map(
-            opt(terminated(
-                separated_list1(tag(","), <Box<dyn Restyle>>::parse),
-                opt(tag(",")),
-            )),
-            |restyles| {
-                let restyles = restyles.unwrap_or_default();
-                Style::default()
-                    .with(restyles.as_slice())
-                    .diff_from(Style::default())
-            },
-        )(input)
+        let (input, attributes) = opt(terminated(
+            separated_list1(tag(","), Attribute::parse),
+            opt(tag(",")),
+        ))(input)?;
+        let mut diff = StyleDiff::default();
+        for attribute in attributes.unwrap_or_default() {
+            match attribute {
+                Attribute::Foreground(color) => diff.foreground = Some(color),
+                Attribute::Background(color) => diff.background = Some(color),
+                Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
+            }
+        }
+        Ok((input, diff))
     }
 }
 
-- 
2.43.0


From a1899690353abb69091cd7e02499b6365e56e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 3/8] fix: turn off the previous ANSI intensity when switching
 between bold and faint

Bold and faint are independent attributes of a terminal (both are cleared by
SGR 22), so switching directly between them left text both bold and faint.
---
 ansi/src/ansi.rs |  3 ++-
 ansi/src/io.rs   |  3 ++-
 ansi/src/util.rs | 14 +++++++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ansi/src/ansi.rs b/ansi/src/ansi.rs
index 899e015..6acef11 100644
--- a/ansi/src/ansi.rs
+++ b/ansi/src/ansi.rs
@@ -59,7 +59,8 @@ impl<T: fmt::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index d54e5be..f60db38 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -61,7 +61,8 @@ impl<T: std::io::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/util.rs b/ansi/src/util.rs
index fd7fbca..938cb12 100644
--- a/ansi/src/util.rs
+++ b/ansi/src/util.rs
@@ -50,11 +50,15 @@ pub(crate) fn background(color: Color) -> &'static str {
     }
 }
 
-pub(crate) fn intensity(intensity: Intensity) -> &'static str {
-    match intensity {
-        Intensity::Bold => "1",
-        Intensity::Faint => "2",
-        Intensity::Normal => "22",
+pub(crate) fn intensity(current: Intensity, intensity: Intensity) -> &'static str {
+    match (current, intensity) {
+        // Bold and faint are not mutually exclusive for terminals, the previous
+        // one must be turned off
+        (Intensity::Faint, Intensity::Bold) => "22;1",
+        (Intensity::Bold, Intensity::Faint) => "22;2",
+        (_, Intensity::Bold) => "1",
+        (_, Intensity::Faint) => "2",
+        (_, Intensity::Normal) => "22",
         _ => "22",
     }
 }
-- 
2.43.0


From 8a713bafd22886afc9f87899de869a6692690f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 4/8] fix: reject a named formatting argument given twice

---
 macros/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a8632fb..747df3d 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -115,12 +115,16 @@ fn format_args_impl(
     let positional_args = positional_args.into_iter();
     let positional_args = quote! { (#(&#positional_args,)*) };
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
+    let num_named_args = named_args_names.len();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
         .map(|name| name.to_string())
         .enumerate()
         .map(|(i, s)| (s, i))
         .collect();
+    if named_args_names.len() != num_named_args {
+        panic!("duplicate named formatting arguments");
+    }
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
         (#(&#named_args_values,)*)
-- 
2.43.0


From 1ad93088d8148dace154f827d81efbe43e87fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:59 +0000
Subject: [PATCH 5/8] fix: parenthesise the argument expressions of format_args

`&#expr` borrows only the first operand of `a + b`, `x as u8`, `1..3` or
`a == b`, so such arguments did not compile (or were computed on references).
---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 747df3d..11dccf2 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -113,7 +113,7 @@ fn format_args_impl(
     assert!(leftover.is_empty());
     let num_positional_args = positional_args.len();
     let positional_args = positional_args.into_iter();
-    let positional_args = quote! { (#(&#positional_args,)*) };
+    let positional_args = quote! { (#(&(#positional_args),)*) };
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
     let num_named_args = named_args_names.len();
     let named_args_names: HashMap<String, usize> = named_args_names
@@ -127,7 +127,7 @@ fn format_args_impl(
     }
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
-        (#(&#named_args_values,)*)
+        (#(&(#named_args_values),)*)
     };
     let mut implicit_named_args_values = Vec::new();
     let mut used_positional_args = HashSet::new();
-- 
2.43.0


From aee873f6b6bda37ca03f4bcb3cfd21744a61b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:51 +0000
Subject: [PATCH 6/8] fix: match raw identifiers of named arguments by the name
 they stand for

---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 11dccf2..ca9d17b 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -10,6 +10,7 @@ use std::collections::{HashMap, HashSet};
 use proc_macro2::Span;
 use quote::{quote, ToTokens};
 use syn::{
+    ext::IdentExt,
     parse::{ParseStream, Result},
     parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
     Token,
@@ -118,7 +119,7 @@ fn format_args_impl(
     let num_named_args = named_args_names.len();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
-        .map(|name| name.to_string())
+        .map(|name| name.unraw().to_string())
         .enumerate()
         .map(|(i, s)| (s, i))
         .collect();
-- 
2.43.0


From 7fd2985b7017e2463d8418d5af352fefccb2deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:18 +0000
Subject: [PATCH 7/8] fix: let `{self}` capture the receiver of a method

---
 macros/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index ca9d17b..9d70014 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -96,6 +96,16 @@ impl syn::parse::Parse for ArgsInput {
     }
 }
 
+/// The identifier of a captured variable. It is raw, so that a variable may be named like a
+/// keyword, except that `self` does not have a raw form.
+fn capture(name: &str, span: Span) -> Ident {
+    if name == "self" {
+        Ident::new(name, span)
+    } else {
+        Ident::new_raw(name, span)
+    }
+}
+
 fn format_args_impl(
     ArgsInput {
         krate,
@@ -178,7 +188,7 @@ fn format_args_impl(
                             implicit_named_args_values.push(ExprPath {
                                 attrs: Vec::new(),
                                 qself: None,
-                                path: Ident::new_raw(
+                                path: capture(
                                     name,
                                     Span::call_site().resolved_at(format_string.span()),
                                 )
-- 
2.43.0


From 822732116bbe9b849d06d61919f170c2b2014f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:01 +0000
Subject: [PATCH 8/8] fix: accept a format string given by a macro in writeln

---
 core/src/lib.rs   | 25 +++++++++++++++++++++++++
 core/src/write.rs |  2 +-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d88c45d..1faba9b 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -121,3 +121,28 @@ macro_rules! _format_args {
         $crate::𓀄::format_args!(crate=$crate, $fmt $(, $($arg)*)?)
     };
 }
+
+#[cfg(feature = "macros")]
+#[cfg(not(stylish_proc_macro_expand))]
+#[doc(hidden)]
+#[macro_export]
+macro_rules! _format_args_nl {
+    ($fmt:literal $(, $($arg:tt)*)?) => {
+        $crate::𓀄::format_args_nl!(crate=$crate, $fmt $(, $($arg)*)?)
+    };
+    ($fmt:expr $(, $($arg:tt)*)?) => {
+        $crate::𓀄::with_builtin!(let $fmt_lit = $fmt in {
+            $crate::𓀄::format_args_nl!(crate=$crate, $fmt_lit $(, $($arg)*)?)
+        })
+    };
+}
+
+#[cfg(feature = "macros")]
+#[cfg(stylish_proc_macro_expand)]
+#[doc(hidden)]
+#[macro_export]
+macro_rules! _format_args_nl {
+    ($fmt:expr $(, $($arg:tt)*)?) => {
+        $crate::𓀄::format_args_nl!(crate=$crate, $fmt $(, $($arg)*)?)
+    };
+}
diff --git a/core/src/write.rs b/core/src/write.rs
index 72c3a14..5c64888 100644
--- a/core/src/write.rs
+++ b/core/src/write.rs
@@ -164,6 +164,6 @@ macro_rules! writeln {
         $crate::write!($dst, "\n")
     };
     ($dst:expr, $($arg:tt)*) => {
-        $dst.write_fmt($crate::𓀄::format_args_nl!(crate=$crate, $($arg)*))
+        $dst.write_fmt($crate::_format_args_nl!($($arg)*))
     };
 }
-- 
2.43.0

