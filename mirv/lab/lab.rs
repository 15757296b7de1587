//! Small functions with known answers: what the verifier must be able to show about std (`yes_`, true for every
//! input) and must not show (`no_`, false for some input). They are verified by selftest.py and run on random
//! inputs, so that the contracts assumed of std are tried against std itself.
#![allow(dead_code, unused, clippy::all)]
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type T = chrono::DateTime<chrono::Utc>;
type D = chrono::Duration;
macro_rules! lab { ($($n:ident($($a:ident: $t:ty),*) $b:block)*) => {
    $(pub fn $n($($a: &$t),*) -> bool $b)*
    #[cfg(feature = "run")]
    pub const ALL: &[(&str, fn(&mut crate::Rng) -> bool)] = &[$((stringify!($n), |r| { $(let $a: $t = crate::Arb::arb(r);)* $n($(&$a),*) })),*];
} }

lab! {
    // ---- strings
    yes_str_split_once(s: String) { match s.split_once('.') { Some((a, b)) => format!("{a}.{b}") == *s && !a.contains('.'), None => !s.contains('.') } }
    yes_str_rsplit_once(s: String) { match s.rsplit_once('.') { Some((a, b)) => format!("{a}.{b}") == *s, None => !s.contains('.') } }
    no_str_split_once(s: String) { s.split_once('.').is_none() }
    yes_str_split_first(s: String) { s.split('.').next() == Some(match s.split_once('.') { Some((a, _)) => a, None => s.as_str() }) }
    no_str_split_first(s: String) { s.split('.').next() == Some(s.as_str()) }
    yes_str_split_collect(s: String) { let v: Vec<&str> = s.split('.').collect(); v.len() == s.split('.').count() && v.len() >= 1 && v[0] == s.split('.').next().unwrap() }
    yes_str_split_join3(s: String) { let v: Vec<&str> = s.split('.').collect(); if let [a, b, c] = v[..] { format!("{a}.{b}.{c}") == *s } else { true } }
    yes_str_splitn(s: String) { let mut it = s.splitn(2, '.'); let a = it.next().unwrap(); match it.next() { Some(b) => format!("{a}.{b}") == *s, None => a == s } }
    no_str_splitn(s: String) { s.splitn(2, '.').nth(1).is_none() }
    yes_str_split_str(s: String) { s.split(".").next() == s.split('.').next() }
    yes_str_split_fn(s: String) { s.split(|c| c == '.').next() == s.split('.').next() }
    yes_str_split_iter_all(s: String) { let mut n = 0usize; for _ in s.split('.') { n += 1; } n >= 1 }
    yes_str_split_last(s: String) { s.split('.').last().is_some() }
    yes_str_split_rev(s: String) { s.rsplit('.').next() == s.split('.').last() }
    yes_str_eq_refl(s: String) { s.as_str() == s.clone() && &s[..] == s.as_str() }
    no_str_eq(s: String, t: String) { s == t }
    yes_str_eq_bytes(s: String, t: String) { (s.as_bytes() == t.as_bytes()) == (s == t) }
    yes_str_len_bytes(s: String) { s.len() == s.as_bytes().len() && s.is_empty() == (s.len() == 0) }
    yes_str_empty(s: String) { s.is_empty() == (s == "") }
    no_str_len(s: String, t: String) { (s.len() == t.len()) == (s == t) }
    yes_str_trim(s: String) { s.trim().len() <= s.len() }
    no_str_trim(s: String) { s.trim() == s.as_str() }
    yes_str_trim_idem(s: String) { s.trim().trim() == s.trim() }
    yes_str_lower(s: String) { s.to_lowercase() != "JWT" }
    yes_str_lower_eq(s: String) { s != "JWT" || s.to_lowercase() == "jwt" }
    no_str_lower(s: String) { s.to_lowercase() == *s }
    yes_str_ascii_ci(s: String, t: String) { s != t || s.eq_ignore_ascii_case(t) }
    yes_str_ascii_ci_sym(s: String, t: String) { s.eq_ignore_ascii_case(t) == t.eq_ignore_ascii_case(s) }
    no_str_ascii_ci(s: String, t: String) { s.eq_ignore_ascii_case(t) == (s == t) }
    yes_str_ascii_ci_lit(s: String) { !s.eq_ignore_ascii_case("jwt") || s.to_lowercase() == "jwt" }
    yes_str_lower_cmp(s: String, t: String) { s != t || s.to_lowercase() == t.to_lowercase() }
    yes_str_starts(s: String) { !s.starts_with("did:") || s.len() >= 4 }
    no_str_starts(s: String) { s.starts_with("did:") == s.contains("did:") }
    yes_str_starts_self(s: String, t: String) { format!("{s}{t}").starts_with(s.as_str()) }
    yes_str_ends_self(s: String, t: String) { format!("{s}{t}").ends_with(t.as_str()) }
    yes_str_strip(s: String, t: String) { format!("{s}{t}").strip_prefix(s.as_str()) == Some(t.as_str()) }
    yes_str_strip_none(s: String) { s.strip_prefix('.').is_some() == s.starts_with('.') }
    yes_str_strip_lit(s: String) { match s.strip_prefix("did:") { Some(r) => format!("did:{r}") == *s, None => !s.starts_with("did:") } }
    yes_str_find(s: String) { match s.find('.') { Some(k) => k < s.len() && &s[..k] == s.split('.').next().unwrap(), None => !s.contains('.') } }
    yes_str_find_rest(s: String) { match s.find('.') { Some(k) => format!("{}.{}", &s[..k], &s[k + 1..]) == *s, None => true } }
    no_str_find(s: String) { s.find('.') == s.rfind('.') }
    yes_str_concat(s: String, t: String) { s.clone() + t == format!("{s}{t}") }
    yes_str_concat_arr(s: String, t: String) { [s.as_str(), t.as_str()].concat() == format!("{s}{t}") }
    yes_str_join_arr(s: String, t: String) { [s.as_str(), t.as_str()].join(".") == format!("{s}.{t}") }
    yes_str_push(s: String, t: String) { let mut r = s.clone(); r.push('.'); r.push_str(t); r == format!("{s}.{t}") }
    yes_str_insert0(s: String) { let mut r = s.clone(); r.insert(0, '.'); r == format!(".{s}") }
    yes_str_insert_str(s: String) { let mut r = s.clone(); r.insert_str(0, "did:"); r == format!("did:{s}") }
    yes_str_pop(s: String) { let mut r = s.clone(); r.push('x'); r.pop() == Some('x') && r == *s }
    yes_str_truncate0(s: String) { let mut r = s.clone(); r.truncate(0); r.is_empty() }
    yes_str_clear(s: String) { let mut r = s.clone(); r.clear(); r.is_empty() }
    yes_str_extend(s: String, t: String) { let mut r = s.clone(); r.extend([t.as_str()]); r == format!("{s}{t}") }
    yes_str_write(s: String, t: String) { use std::fmt::Write; let mut r = String::new(); write!(r, "{s}.{t}").is_ok() && r == format!("{s}.{t}") }
    yes_str_from_iter(s: String, t: String) { [s.as_str(), t.as_str()].into_iter().collect::<String>() == format!("{s}{t}") }
    yes_str_chars_count(s: String) { s.chars().count() <= s.len() }
    yes_str_chars_next(s: String) { s.chars().next().is_none() == s.is_empty() }
    yes_str_chars_all(s: String) { !s.is_empty() || s.chars().all(|c| c == 'x') }
    no_str_chars_all(s: String) { s.chars().all(|c| c.is_ascii_digit()) }
    yes_str_chars_any(s: String) { s.chars().any(|c| c == '.') == s.contains('.') }
    yes_str_bytes_any(s: String) { s.bytes().any(|c| c == b'.') == s.contains('.') }
    yes_str_bytes_len(s: String) { s.bytes().len() == s.len() }
    yes_str_char_filter(s: String) { s.chars().filter(|c| *c == '.').count() + 1 == s.split('.').count() }
    yes_str_matches(s: String) { s.matches('.').count() + 1 == s.split('.').count() }
    no_str_matches(s: String) { s.matches('.').count() == s.split('.').count() }
    yes_str_chars_rev(s: String) { s.chars().rev().next().is_none() == s.is_empty() }
    yes_str_chars_last(s: String) { s.chars().last().is_none() == s.is_empty() }
    yes_str_chars_collect(s: String) { s.chars().collect::<String>() == *s }
    yes_str_char_indices(s: String) { match s.char_indices().next() { Some((k, _)) => k == 0, None => s.is_empty() } }
    yes_str_to_vec(s: String) { String::from_utf8(s.as_bytes().to_vec()).as_deref() == Ok(s.as_str()) }
    yes_str_from_utf8(s: String) { std::str::from_utf8(s.as_bytes()) == Ok(s.as_str()) }
    yes_str_lossy(s: String) { String::from_utf8_lossy(s.as_bytes()) == s.as_str() }
    no_bytes_utf8(b: Vec<u8>) { std::str::from_utf8(b).is_ok() }
    yes_str_into_bytes(s: String) { s.clone().into_bytes() == s.as_bytes() }
    yes_str_parse_int(n: u32) { n.to_string().parse::<u32>() == Ok(*n) }
    no_str_parse(s: String) { s.parse::<u32>().is_ok() }
    yes_str_int_len(n: u64) { n.to_string().len() >= 1 && n.to_string().len() <= 20 }
    yes_str_int_eq(n: u64, m: u64) { (n.to_string() == m.to_string()) == (n == m) }
    yes_str_int_len8(n: u64) { (n.to_string().len() > 8) == (*n > 99_999_999) }
    no_str_int_len8(n: u64) { (n.to_string().len() > 8) == (*n > 999_999_999) }
    yes_str_int_chars(n: u64) { (format!("{n}").chars().count() > 8) == (*n > 99_999_999) }
    yes_str_ilog(n: u64) { (n.checked_ilog10().map_or(1, |d| d + 1) > 8) == (*n > 99_999_999) }
    yes_str_replace_none(s: String) { s.contains('.') || s.replace('.', "x") == *s }
    no_str_replace(s: String) { s.replace('.', "x") == *s }
    yes_str_repeat(s: String) { s.repeat(1) == *s && s.repeat(0).is_empty() }
    yes_str_cmp(s: String, t: String) { (s.cmp(t) == std::cmp::Ordering::Equal) == (s == t) }
    yes_str_lt(s: String, t: String) { !(s < t && t < s) && (s < t || t < s || s == t) }
    yes_str_cow(s: String) { let c: std::borrow::Cow<str> = s.as_str().into(); c == *s && c.into_owned() == *s }
    yes_str_box(s: String) { let b: Box<str> = s.as_str().into(); *b == **s }
    yes_str_default(s: String) { String::default().is_empty() && <&str>::default() == "" }
    yes_str_debug(s: String) { format!("{:?}", s).len() >= 2 }
    yes_str_into(s: String) { let t: String = s.as_str().into(); let u: String = t.to_owned(); u == *s }
    yes_str_as_ref(s: String) { AsRef::<str>::as_ref(s) == s.as_str() && std::borrow::Borrow::<str>::borrow(s) == s.as_str() }
    yes_str_lines(s: String) { s.lines().count() <= s.len() }
    yes_str_ws(s: String) { !s.is_empty() || s.split_whitespace().next().is_none() }
    yes_str_get(s: String) { s.get(..0) == Some("") && s.get(0..) == Some(s.as_str()) }
    yes_str_split_at(s: String) { let (a, b) = s.split_at(0); a.is_empty() && b == s.as_str() }
    yes_str_terminator(s: String) { !s.is_empty() || s.split_terminator('.').next().is_none() }
    yes_str_split_incl(s: String) { !s.is_empty() || s.split_inclusive('.').next().is_none() }
    yes_str_ascii(s: String) { !s.is_empty() || s.is_ascii() }
    yes_str_upper_lit(s: String) { s.to_uppercase() != "jwt" }
    yes_str_make_lower(s: String) { let mut t = s.clone(); t.make_ascii_lowercase(); t == s.to_ascii_lowercase() }
    yes_char_digit(n: u8) { char::from_digit((*n % 10) as u32, 10).is_some() }
    yes_str_lit_match(s: String) { match s.as_str() { "a" => s == "a", "b" => s.len() == 1, _ => s != "a" && s != "b" } }

    // ---- options and results
    yes_opt_map(o: Option<u32>) { o.map(|x| x as u64 + 1).unwrap_or(0) == match o { Some(x) => *x as u64 + 1, None => 0 } }
    yes_opt_and_then(o: Option<u32>) { o.and_then(|x| x.checked_add(1)).is_none() == (o.is_none() || *o == Some(u32::MAX)) }
    yes_opt_filter(o: Option<u32>) { o.filter(|x| *x > 3).is_some() == o.is_some_and(|x| x > 3) }
    yes_opt_zip(o: Option<u32>, p: Option<u32>) { o.zip(*p).is_some() == (o.is_some() && p.is_some()) }
    yes_opt_xor(o: Option<u32>, p: Option<u32>) { o.xor(*p).is_some() == (o.is_some() != p.is_some()) }
    yes_opt_or(o: Option<u32>, p: Option<u32>) { o.or(*p).is_none() == (o.is_none() && p.is_none()) }
    yes_opt_ok_or(o: Option<u32>) { o.ok_or("x").is_ok() == o.is_some() }
    yes_opt_eq(o: Option<String>, p: Option<String>) { (o == p) == match (o, p) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false } }
    no_opt_eq(o: Option<String>, p: Option<String>) { o == p }
    yes_opt_as_deref(o: Option<String>) { o.as_deref() == o.as_ref().map(String::as_str) }
    yes_opt_cmp(o: Option<u32>, p: Option<u32>) { (o < p) == match (o, p) { (Some(a), Some(b)) => a < b, (None, Some(_)) => true, _ => false } }
    yes_opt_iter(o: Option<u32>) { o.iter().count() == o.is_some() as usize }
    yes_opt_into_iter(o: Option<u32>) { (*o).into_iter().next() == *o }
    yes_opt_chain(o: Option<u32>, p: Option<u32>) { o.iter().chain(p.iter()).count() == o.is_some() as usize + p.is_some() as usize }
    yes_opt_take(o: Option<u32>) { let mut p = *o; p.take() == *o && p.is_none() }
    yes_opt_get_or_insert(o: Option<u32>) { let mut p = *o; *p.get_or_insert(7) == o.unwrap_or(7) }
    yes_opt_get_or_insert_with(o: Option<u32>) { let mut p = *o; *p.get_or_insert_with(|| 7) == o.unwrap_or(7) }
    yes_opt_transpose(o: Option<u32>) { o.map(|x| if x > 3 { Ok(x) } else { Err(x) }).transpose().is_err() == o.is_some_and(|x| x <= 3) }
    yes_opt_flatten(o: Option<Option<u32>>) { o.flatten().is_some() == matches!(o, Some(Some(_))) }
    yes_opt_map_or_else(o: Option<u32>) { o.map_or_else(|| true, |x| x == x) }
    yes_opt_unwrap_or_default(o: Option<u32>) { o.unwrap_or_default() == o.unwrap_or(0) }
    yes_opt_is_none_or(o: Option<u32>) { o.is_none_or(|x| x > 3) == (o.is_none() || o.unwrap() > 3) }
    yes_opt_inspect(o: Option<u32>) { let mut n = 0; let r = o.inspect(|_| n += 1); r == *o && n == o.is_some() as i32 }
    yes_opt_replace(o: Option<u32>) { let mut p = *o; p.replace(3) == *o && p == Some(3) }
    yes_opt_insert(o: Option<u32>) { let mut p = *o; *p.insert(3) == 3 && p == Some(3) }
    yes_opt_take_if(o: Option<u32>) { let mut p = *o; p.take_if(|x| *x > 3).is_some() == o.is_some_and(|x| x > 3) }
    yes_opt_default(o: Option<u32>) { Option::<u32>::default().is_none() }
    yes_opt_unzip(o: Option<u32>) { let (a, b) = o.map(|x| (x, x)).unzip(); a == *o && b == *o }
    yes_opt_collect(o: Option<u32>, p: Option<u32>) { [*o, *p].into_iter().collect::<Option<Vec<u32>>>().is_some() == (o.is_some() && p.is_some()) }
    yes_opt_flat(o: Option<u32>, p: Option<u32>) { [*o, *p].into_iter().flatten().count() == o.is_some() as usize + p.is_some() as usize }
    yes_opt_sum(o: Option<u8>, p: Option<u8>) { [*o, *p].into_iter().flatten().map(|x| x as u32).sum::<u32>() == o.unwrap_or(0) as u32 + p.unwrap_or(0) as u32 }
    yes_res_map_err(o: Option<u32>) { o.ok_or(3).map_err(|e| e + 1).err() == if o.is_some() { None } else { Some(4) } }
    yes_res_and(o: Option<u32>, p: Option<u32>) { o.ok_or(1).and(p.ok_or(2)).is_ok() == (o.is_some() && p.is_some()) }
    yes_res_or_else(o: Option<u32>) { o.ok_or(1).or_else(|e| if e == 1 { Ok::<u32, u32>(0) } else { Err(e) }).is_ok() }
    yes_res_unwrap_or_else(o: Option<u32>) { o.ok_or(9u32).unwrap_or_else(|e| e) == o.unwrap_or(9) }
    yes_res_is_ok_and(o: Option<u32>) { o.ok_or(9u32).is_ok_and(|x| x > 2) == o.is_some_and(|x| x > 2) }
    yes_res_is_err_and(o: Option<u32>) { o.ok_or(9u32).is_err_and(|x| x == 9) == o.is_none() }
    yes_res_iter(o: Option<u32>) { o.ok_or(9u32).iter().count() == o.is_some() as usize }
    yes_res_q(o: Option<u32>) { fn f(o: Option<u32>) -> Option<u32> { let x = o?; x.checked_sub(1) } f(*o).is_some() == o.is_some_and(|x| x > 0) }
    yes_res_copied(o: Option<u32>) { o.as_ref().copied() == *o && o.as_ref().cloned() == *o }
    yes_res_inspect_err(o: Option<u32>) { let mut n = 0; let _ = o.ok_or(9u32).inspect_err(|_| n += 1); n == o.is_none() as i32 }

    // ---- integers
    yes_int_abs_diff(a: u32, b: u32) { a.abs_diff(*b) == if a > b { a - b } else { b - a } }
    yes_int_clamp(a: u32) { (*a).clamp(2, 8) >= 2 && (*a).clamp(2, 8) <= 8 }
    yes_int_minmax(a: u32, b: u32) { *a.min(b) <= *a.max(b) }
    yes_int_checked(a: u32, b: u32) { a.checked_add(*b).is_none() == (*a as u64 + *b as u64 > u32::MAX as u64) }
    yes_int_sat(a: u32, b: u32) { a.saturating_sub(*b) <= *a }
    yes_int_over(a: u32, b: u32) { let (r, o) = a.overflowing_add(*b); o == a.checked_add(*b).is_none() }
    yes_int_pow(a: u64) { (*a < 10u64.pow(8)) == (*a <= 99_999_999) }
    yes_int_divrem(a: u64) { a / 10 * 10 + a % 10 == *a }
    yes_int_cast(a: u64) { u32::try_from(*a).is_ok() == (*a <= u32::MAX as u64) }
    yes_int_trunc(a: u64) { *a > u32::MAX as u64 || *a as u32 as u64 == *a }
    no_int_trunc(a: u64) { *a as u32 as u64 == *a }
    yes_int_loop(a: u64) { let mut n = *a; let mut d = 1; while n >= 10 { n /= 10; d += 1; } (d > 8) == (*a > 99_999_999) }
    yes_int_range(a: u64) { (0..=99_999_999).contains(a) == (*a <= 99_999_999) }
    yes_int_cmp(a: u64, b: u64) { match a.cmp(b) { std::cmp::Ordering::Less => a < b, std::cmp::Ordering::Equal => a == b, std::cmp::Ordering::Greater => a > b } }
    yes_int_bits(a: u8) { (a & 1 == 1) == (a % 2 == 1) }
    yes_int_signum(a: i32) { a.signum() == if *a > 0 { 1 } else if *a < 0 { -1 } else { 0 } }
    yes_int_neg(a: i32) { a.checked_neg().is_none() == (*a == i32::MIN) }
    yes_int_abs(a: i32) { a.checked_abs().is_none() == (*a == i32::MIN) }
    yes_int_unsigned(a: i32) { a.unsigned_abs() as i64 == (*a as i64).abs() }
    yes_bool_then(a: u32) { (*a > 3).then(|| 1).is_some() == (*a > 3) && (*a > 3).then_some(1).is_some() == (*a > 3) }
    yes_bool_xor(a: bool, b: bool) { (a ^ b) == (a != b) && (a & b) == (*a && *b) && (a | b) == (*a || *b) }
    yes_bool_cmp(a: bool, b: bool) { (a < b) == (!*a && *b) }
    yes_int_div_ceil(a: u32) { a.div_ceil(2) as u64 * 2 >= *a as u64 }
    yes_int_rem_euclid(a: i32) { a.rem_euclid(7) >= 0 && a.rem_euclid(7) < 7 }
    yes_int_float(a: u32) { (*a as f64) >= 0.0 }

    // ---- sequences
    yes_vec_len(v: Vec<u32>) { v.iter().count() == v.len() && v.is_empty() == (v.len() == 0) }
    yes_vec_map(v: Vec<u32>) { let w: Vec<u64> = v.iter().map(|x| *x as u64 + 1).collect(); w.len() == v.len() && w.iter().all(|x| *x > 0) }
    no_vec_map(v: Vec<u32>) { v.iter().map(|x| *x as u64).all(|x| x > 0) }
    yes_vec_any_all(v: Vec<u32>) { v.iter().any(|x| *x > 3) == !v.iter().all(|x| *x <= 3) }
    yes_vec_find(v: Vec<u32>) { v.iter().find(|x| **x > 3).is_some() == v.iter().any(|x| *x > 3) }
    yes_vec_find_map(v: Vec<u32>) { v.iter().find_map(|x| x.checked_sub(3)).is_some() == v.iter().any(|x| *x >= 3) }
    yes_vec_position(v: Vec<u32>) { match v.iter().position(|x| *x == 3) { Some(k) => v[k] == 3 && v[..k].iter().all(|x| *x != 3), None => !v.contains(&3) } }
    no_vec_position(v: Vec<u32>) { match v.iter().position(|x| *x == 3) { Some(k) => k == 0, None => true } }
    yes_vec_filter(v: Vec<u32>) { let w: Vec<&u32> = v.iter().filter(|x| **x > 3).collect(); w.len() <= v.len() && w.iter().all(|x| **x > 3) }
    yes_vec_filter_empty(v: Vec<u32>) { v.iter().filter(|x| **x > 3).next().is_none() == v.iter().all(|x| *x <= 3) }
    yes_vec_filter_count(v: Vec<u32>) { (v.iter().filter(|x| **x > 3).count() == 0) == v.iter().all(|x| *x <= 3) }
    yes_vec_filter_map(v: Vec<u32>) { let w: Vec<u32> = v.iter().filter_map(|x| x.checked_sub(3)).collect(); w.len() <= v.len() }
    yes_vec_loop_push(v: Vec<u32>) { let mut w = Vec::new(); for x in v { w.push(*x); } w == *v }
    yes_vec_loop_with_cap(v: Vec<u32>) { let mut w = Vec::with_capacity(v.len()); for x in v.iter() { w.push(*x); } w == *v }
    yes_vec_loop_index(v: Vec<u32>) { let mut w = Vec::new(); for i in 0..v.len() { w.push(v[i]); } w == *v }
    yes_vec_loop_while(v: Vec<u32>) { let mut i = 0; while i < v.len() { if v[i] == 3 { return v.contains(&3); } i += 1; } !v.contains(&3) }
    yes_vec_loop_flag(v: Vec<u32>) { let mut f = false; for x in v { if *x == 3 { f = true; } } f == v.contains(&3) }
    yes_vec_loop_flag_or(v: Vec<u32>) { let mut f = false; for x in v { f |= *x == 3; } f == v.contains(&3) }
    yes_vec_loop_break(v: Vec<u32>) { let mut f = None; for x in v { if *x == 3 { f = Some(*x); break; } } f.is_some() == v.contains(&3) }
    yes_vec_loop_continue(v: Vec<u32>) { for x in v { if *x != 3 { continue; } return v.contains(&3); } !v.contains(&3) }
    yes_vec_loop_count(v: Vec<u32>) { let mut n = 0usize; for _ in v { n += 1; } n == v.len() }
    yes_vec_while_let(v: Vec<u32>) { let mut it = v.iter(); while let Some(x) = it.next() { if *x == 3 { return v.contains(&3); } } !v.contains(&3) }
    yes_vec_enumerate(v: Vec<u32>) { for (i, x) in v.iter().enumerate() { if v[i] != *x { return false; } } true }
    yes_vec_enumerate_all(v: Vec<u32>) { v.iter().enumerate().all(|(i, x)| v[i] == *x) }
    yes_vec_zip(v: Vec<u32>, w: Vec<u32>) { v.len() != w.len() || v.iter().zip(w.iter()).all(|(a, b)| a == b) == (v == w) }
    yes_vec_skip(v: Vec<u32>) { v.iter().skip(1).all(|x| *x == 3) || v.contains(&3) || v.len() > 1 }
    yes_vec_skip_index(v: Vec<u32>) { v.iter().skip(1).next() == v.get(1) }
    yes_vec_take(v: Vec<u32>) { v.iter().take(2).count() <= 2 }
    yes_vec_rev(v: Vec<u32>) { v.iter().rev().next() == v.last() }
    yes_vec_rev_find(v: Vec<u32>) { v.iter().rev().find(|x| **x == 3).is_some() == v.contains(&3) }
    yes_vec_rposition(v: Vec<u32>) { v.iter().rposition(|x| *x == 3).is_some() == v.contains(&3) }
    yes_vec_first_last(v: Vec<u32>) { v.first() == v.get(0) && v.first().is_none() == v.is_empty() }
    yes_vec_chain(v: Vec<u32>, w: Vec<u32>) { v.iter().chain(w.iter()).any(|x| *x == 3) == (v.contains(&3) || w.contains(&3)) }
    yes_vec_into_chain(v: Vec<u32>, w: Vec<u32>) { v.clone().into_iter().chain(w.clone()).any(|x| x == 3) == (v.contains(&3) || w.contains(&3)) }
    yes_vec_chain_collect(v: Vec<u32>, w: Vec<u32>) { let x: Vec<u32> = v.iter().chain(w).copied().collect(); x.len() == v.len() + w.len() }
    yes_vec_extend(v: Vec<u32>, w: Vec<u32>) { let mut x = v.clone(); x.extend(w.iter().copied()); x.len() == v.len() + w.len() && x.starts_with(v) }
    yes_vec_concat(v: Vec<u32>, w: Vec<u32>) { [v.as_slice(), w.as_slice()].concat().len() == v.len() + w.len() }
    yes_vec_eq(v: Vec<u32>, w: Vec<u32>) { v != w || v.len() == w.len() }
    yes_vec_iter_eq(v: Vec<u32>, w: Vec<u32>) { v.iter().eq(w.iter()) == (v == w) }
    yes_vec_dedup(v: Vec<u32>) { let mut w = v.clone(); w.dedup(); w.len() <= v.len() }
    yes_vec_sort(v: Vec<u32>) { let mut w = v.clone(); w.sort(); w.len() == v.len() }
    yes_vec_sort_contains(v: Vec<u32>) { let mut w = v.clone(); w.sort(); w.contains(&3) == v.contains(&3) }
    yes_vec_sorted(v: Vec<u32>) { let mut w = v.clone(); w.sort(); w.windows(2).all(|x| x[0] <= x[1]) }
    yes_vec_sort_unstable(v: Vec<u32>) { let mut w = v.clone(); w.sort_unstable(); w.len() == v.len() }
    yes_vec_sort_by(v: Vec<u32>) { let mut w = v.clone(); w.sort_by(|a, b| b.cmp(a)); w.len() == v.len() }
    yes_vec_sort_key(v: Vec<u32>) { let mut w = v.clone(); w.sort_by_key(|a| *a); w.len() == v.len() }
    no_vec_sort(v: Vec<u32>) { let mut w = v.clone(); w.sort(); w == *v }
    yes_vec_reverse(v: Vec<u32>) { let mut w = v.clone(); w.reverse(); w.len() == v.len() && w.first() == v.last() }
    yes_vec_retain(v: Vec<u32>) { let mut w = v.clone(); w.retain(|x| *x > 3); w.iter().all(|x| *x > 3) && w.len() <= v.len() }
    yes_vec_drain(v: Vec<u32>) { let mut w = v.clone(); let n = w.drain(..).count(); n == v.len() && w.is_empty() }
    yes_vec_split_off(v: Vec<u32>) { let mut w = v.clone(); let x = w.split_off(0); x == *v && w.is_empty() }
    yes_vec_resize(v: Vec<u32>) { let mut w = v.clone(); w.resize(3, 0); w.len() == 3 }
    yes_vec_iter_mut(v: Vec<u32>) { let mut w = v.clone(); for x in w.iter_mut() { *x = 3; } w.len() == v.len() && w.iter().all(|x| *x == 3) }
    yes_vec_min(v: Vec<u32>) { v.iter().min().is_none() == v.is_empty() }
    yes_vec_max_by_key(v: Vec<u32>) { v.iter().max_by_key(|x| **x).is_none() == v.is_empty() }
    yes_vec_sum(v: Vec<u8>) { v.is_empty() || v.iter().map(|x| *x as u64).sum::<u64>() >= 0 }
    yes_vec_fold(v: Vec<u32>) { v.iter().fold(0usize, |n, _| n + 1) == v.len() }
    yes_vec_fold_or(v: Vec<u32>) { v.iter().fold(false, |f, x| f || *x == 3) == v.contains(&3) }
    yes_vec_try_fold(v: Vec<u32>) { v.iter().try_fold((), |_, x| if *x == 3 { Err(()) } else { Ok(()) }).is_err() == v.contains(&3) }
    yes_vec_try_for_each(v: Vec<u32>) { v.iter().try_for_each(|x| if *x == 3 { Err(()) } else { Ok(()) }).is_err() == v.contains(&3) }
    yes_vec_for_each(v: Vec<u32>) { let mut n = 0usize; v.iter().for_each(|_| n += 1); n == v.len() }
    yes_vec_partition(v: Vec<u32>) { let (a, b): (Vec<u32>, Vec<u32>) = v.iter().copied().partition(|x| *x > 3); a.len() + b.len() == v.len() }
    yes_vec_collect_result(v: Vec<u32>) { v.iter().map(|x| x.checked_sub(3).ok_or(())).collect::<Result<Vec<_>, _>>().is_ok() == v.iter().all(|x| *x >= 3) }
    yes_vec_collect_option(v: Vec<u32>) { v.iter().map(|x| x.checked_sub(3)).collect::<Option<Vec<_>>>().is_some() == v.iter().all(|x| *x >= 3) }
    yes_vec_flat_map(v: Vec<Option<u32>>) { v.iter().flat_map(|x| x.iter()).any(|x| *x == 3) == v.contains(&Some(3)) }
    yes_vec_flatten(v: Vec<Option<u32>>) { v.iter().flatten().any(|x| *x == 3) == v.contains(&Some(3)) }
    yes_vec_filter_map_any(v: Vec<Option<u32>>) { v.iter().filter_map(|x| x.as_ref()).any(|x| *x == 3) == v.contains(&Some(3)) }
    yes_vec_map_while(v: Vec<u32>) { v.iter().map_while(|x| x.checked_sub(3)).count() <= v.len() }
    yes_vec_take_while(v: Vec<u32>) { v.iter().take_while(|x| **x > 3).count() <= v.len() }
    yes_vec_skip_while(v: Vec<u32>) { v.iter().skip_while(|x| **x != 3).next().is_some() == v.contains(&3) }
    yes_vec_cloned(v: Vec<String>) { let w: Vec<String> = v.iter().cloned().collect(); w == *v }
    yes_vec_strs(v: Vec<String>) { let w: Vec<&str> = v.iter().map(|s| s.as_str()).collect(); w.len() == v.len() }
    yes_vec_contains_str(v: Vec<String>, s: String) { v.contains(s) == v.iter().any(|x| x == s) }
    yes_vec_join(v: Vec<String>) { v.len() != 1 || v.join(".") == v[0] }
    yes_vec_windows(v: Vec<u32>) { v.len() >= 2 || v.windows(2).next().is_none() }
    yes_vec_sort_dup(v: Vec<u32>) { let mut w = v.clone(); w.sort(); w.windows(2).any(|x| x[0] == x[1]) == (0..v.len()).any(|i| (0..i).any(|j| v[i] == v[j])) }
    yes_vec_sort_dup_str(v: Vec<String>) { let mut w: Vec<&str> = v.iter().map(|s| s.as_str()).collect(); w.sort_unstable(); w.dedup(); (w.len() < v.len()) == (0..v.len()).any(|i| (0..i).any(|j| v[i] == v[j])) }
    no_vec_dedup(v: Vec<u32>) { let mut w = v.clone(); w.dedup(); w.len() == v.len() || v.len() < 3 }
    no_vec_windows(v: Vec<u32>) { v.windows(2).all(|x| x[0] <= x[1]) }
    no_vec_retain(v: Vec<u32>) { let mut w = v.clone(); w.retain(|x| *x > 3); w.len() < v.len() || v.is_empty() }
    yes_vec_drain_len(v: Vec<u32>) { let mut w = v.clone(); let x: Vec<u32> = w.drain(..).collect(); x == *v }
    yes_vec_ends(v: Vec<u32>) { v.is_empty() || v.ends_with(&[v[v.len() - 1]]) }
    yes_vec_chunks(v: Vec<u32>) { v.is_empty() == v.chunks(2).next().is_none() }
    yes_vec_split_first(v: Vec<u32>) { match v.split_first() { Some((h, t)) => *h == v[0] && t.len() + 1 == v.len(), None => v.is_empty() } }
    yes_vec_slice_pat(v: Vec<u32>) { match v.as_slice() { [] => v.len() == 0, [a] => v[0] == *a, [a, .., b] => v[0] == *a && v.last() == Some(b) } }
    yes_vec_nested(v: Vec<u32>) { for i in 0..v.len() { for j in 0..i { if v[i] == v[j] { return v.len() >= 2; } } } true }
    yes_vec_iter_cmp(v: Vec<u32>) { v.iter().copied().peekable().peek().copied() == v.first().copied() }
    yes_vec_nth(v: Vec<u32>) { v.iter().nth(1) == v.get(1) }
    yes_vec_last(v: Vec<u32>) { v.iter().last() == v.last() }
    yes_vec_step(v: Vec<u32>) { v.iter().step_by(2).next() == v.first() }
    yes_vec_binary(v: Vec<u32>) { v.binary_search(&3).is_err() || v.contains(&3) }
    yes_vec_starts(v: Vec<u32>) { v.starts_with(&[]) && v.starts_with(v) }
    yes_vec_to_vec(v: Vec<u32>) { v.to_vec() == *v && v.as_slice().to_owned() == *v }
    yes_vec_from_array(a: u32, b: u32) { vec![*a, *b] == [*a, *b] && Vec::from([*a, *b]).len() == 2 }
    yes_vec_boxed(v: Vec<u32>) { v.clone().into_boxed_slice().len() == v.len() }
    yes_vec_iter_rev_collect(v: Vec<u32>) { let w: Vec<u32> = v.iter().rev().copied().collect(); w.len() == v.len() }
    yes_vec_rc(v: Vec<u32>) { std::rc::Rc::new(v.clone()).len() == v.len() }
    yes_vec_successors(a: u32) { std::iter::successors(Some(*a), |x| if *x > 9 { Some(x / 10) } else { None }).next() == Some(*a) }
    yes_vec_repeat(a: u32) { std::iter::repeat(*a).take(3).all(|x| x == *a) }
    yes_vec_repeat_n(a: u32) { vec![*a; 3] == [*a, *a, *a] }
    yes_vec_once(a: u32) { std::iter::once(*a).next() == Some(*a) && std::iter::empty::<u32>().next().is_none() }
    yes_vec_from_fn(a: u32) { let mut n = 0; std::iter::from_fn(|| { n += 1; if n < 3 { Some(n) } else { None } }).count() == 2 }
    yes_vec_array_map(a: u8) { [*a, *a].map(|x| x as u32 + 1) == [*a as u32 + 1; 2] }
    yes_vec_range_map(a: u8) { (0..3u32).map(|x| x + *a as u32).all(|x| x >= *a as u32) }
    yes_vec_range_any(v: Vec<u32>) { (0..v.len()).any(|i| v[i] == 3) == v.contains(&3) }
    yes_vec_range_all(v: Vec<u32>) { (0..v.len()).all(|i| v[i] != 3) != v.contains(&3) }
    yes_vec_range_find(v: Vec<u32>) { (0..v.len()).find(|i| v[*i] == 3).is_some() == v.contains(&3) }

    // ---- sets and maps
    yes_set_insert(v: Vec<String>) { let mut s = HashSet::new(); v.iter().all(|x| s.insert(x)) || v.len() >= 2 }
    yes_set_contains(v: Vec<String>, x: String) { v.iter().collect::<HashSet<_>>().contains(x) == v.contains(x) }
    yes_set_len(v: Vec<String>) { v.iter().collect::<HashSet<_>>().len() <= v.len() }
    no_set_len(v: Vec<String>) { v.iter().collect::<HashSet<_>>().len() == v.len() }
    yes_set_unique(v: Vec<u32>) { let mut s = HashSet::new(); for x in v { if !s.insert(*x) { return v.len() >= 2; } } true }
    yes_set_unique_len(v: Vec<u32>) { let s: HashSet<_> = v.iter().collect(); let mut t = HashSet::new(); (s.len() == v.len()) == v.iter().all(|x| t.insert(x)) }
    yes_bset_unique(v: Vec<u32>) { let mut s = BTreeSet::new(); v.iter().all(|x| s.insert(*x)) || v.len() >= 2 }
    yes_map_insert(v: Vec<String>) { let mut s = HashMap::new(); v.iter().all(|x| s.insert(x.clone(), ()).is_none()) || v.len() >= 2 }
    yes_map_get(s: String) { let mut m = HashMap::new(); m.insert(s.clone(), 1); m.get(s) == Some(&1) && m.contains_key(s) && m.len() == 1 }
    yes_map_get2(s: String, t: String) { let mut m = HashMap::new(); m.insert(s.clone(), 1); m.get(t).is_some() == (s == t) }
    yes_map_entry(s: String) { let mut m: HashMap<String, u32> = HashMap::new(); *m.entry(s.clone()).or_insert(0) += 1; m.get(s) == Some(&1) }
    yes_map_entry_occ(v: Vec<String>) { let mut m = HashMap::new(); for x in v { match m.entry(x) { std::collections::hash_map::Entry::Occupied(_) => return v.len() >= 2, std::collections::hash_map::Entry::Vacant(e) => { e.insert(()); } } } true }
    yes_map_collect(v: Vec<String>, x: String) { v.iter().map(|x| (x, 1)).collect::<HashMap<_, _>>().contains_key(x) == v.contains(x) }
    yes_map_empty(s: String) { HashMap::<String, u32>::new().get(s).is_none() && HashMap::<String, u32>::new().is_empty() }
    yes_bmap_get(s: String, t: String) { let mut m = BTreeMap::new(); m.insert(s.clone(), 1); m.get(t).is_some() == (s == t) }
    yes_set_difference(s: String, t: String) { let mut a = HashSet::new(); a.insert(s); a.replace(s).is_some() && a.len() == 1 }

    // ---- order
    yes_ord_is(a: u32, b: u32) { let o = a.cmp(b); o.is_lt() == (a < b) && o.is_le() == (a <= b) && o.is_gt() == (a > b) && o.is_ge() == (a >= b) && o.is_eq() == (a == b) && o.is_ne() == (a != b) }
    no_ord_is(a: u32, b: u32) { a.cmp(b).is_lt() == (a <= b) }
    yes_ord_reverse(a: i32, b: i32) { a.cmp(b).reverse() == b.cmp(a) }
    yes_ord_then(a: u32, b: u32, c: u32) { a.cmp(b).then(b.cmp(c)) == if a == b { b.cmp(c) } else { a.cmp(b) } }
    yes_ord_then_with(a: u32, b: u32, c: u32) { a.cmp(b).then_with(|| b.cmp(c)).is_eq() == (a == b && b == c) }
    yes_ord_as_int(a: i32, b: i32) { a.cmp(b) as i32 == if a < b { -1 } else if a == b { 0 } else { 1 } }
    yes_ord_less(a: u32, b: u32) { matches!(a.cmp(b), std::cmp::Ordering::Less | std::cmp::Ordering::Equal) == (a <= b) }
    yes_ord_partial(a: u32, b: u32) { a.partial_cmp(b) == Some(a.cmp(b)) && a.partial_cmp(b).map_or(false, |o| o.is_lt()) == (a < b) }
    yes_ord_tuple(a: (u32, u32), b: (u32, u32)) { (a < b) == (a.0 < b.0 || a.0 == b.0 && a.1 < b.1) }
    yes_ord_opt_none(a: Option<u32>) { (*a > None) == a.is_some() && !(*a < None) && (*a >= Some(0)) == a.is_some() }
    yes_ord_opt_max(a: Option<u32>, b: Option<u32>) { let m = (*a).max(*b); m.is_some() == (a.is_some() || b.is_some()) && m >= *a && m >= *b }
    no_ord_opt(a: Option<u32>, b: Option<u32>) { (a < b) == (a.is_none() && b.is_some()) }
    yes_ord_bool(a: bool, b: bool) { (a.cmp(b) == std::cmp::Ordering::Less) == (!*a && *b) && (*a as u8).cmp(&(*b as u8)) == a.cmp(b) }
    yes_ord_rev(a: u32, b: u32) { (std::cmp::Reverse(a) < std::cmp::Reverse(b)) == (b < a) }
    yes_ord_minmax(a: u32, b: u32) { std::cmp::max(a, b) >= std::cmp::min(a, b) && (*a).min(*b) <= *a }
    yes_ord_range(a: u32, b: u32, c: u32) { (*a..*b).contains(c) == (a <= c && c < b) && (*a..=*b).contains(c) == (a <= c && c <= b) && (..*b).contains(c) == (c < b) && (*a..).contains(c) == (a <= c) && (..=*b).contains(c) == (c <= b) }
    no_ord_range(a: u32, b: u32, c: u32) { (*a..*b).contains(c) == (*a..=*b).contains(c) }
    yes_ord_discr(a: Option<u32>, b: Option<u32>) { (std::mem::discriminant(a) == std::mem::discriminant(b)) == (a.is_some() == b.is_some()) }
    // ---- time
    yes_time_cmp(a: T, b: T) { (a < b) == (a.cmp(b) == std::cmp::Ordering::Less) && (a <= b) == !(b < a) && (a == b) == a.cmp(b).is_eq() }
    yes_time_max(a: T, b: T) { *a.max(b) >= *a && *a.max(b) >= *b && *a.min(b) <= *b }
    yes_time_add(a: T, n: u32) { a.checked_add_signed(D::seconds((*n).into())).map_or(true, |t| t - D::seconds((*n).into()) == *a) }
    yes_time_add_cmp(a: T, b: T, n: u32) { let d = D::seconds((*n).into()); a.checked_add_signed(d).map_or(true, |t| (t < *b) == (*b - *a > d)) }
    yes_time_add_le(a: T, n: u32) { a.checked_add_signed(D::seconds(i64::from(*n))).map_or(true, |t| t >= *a && (t == *a) == (*n == 0)) }
    no_time_add_cmp(a: T, b: T, n: u32) { let d = D::seconds((*n).into()); a.checked_add_signed(d).map_or(true, |t| (t < *b) == (*b - *a >= d)) }
    yes_time_since(a: T, b: T) { a.signed_duration_since(*b) == -b.signed_duration_since(*a) && (a.signed_duration_since(*b) > D::zero()) == (a > b) }
    yes_time_since_ref(a: T, b: T) { (*a).signed_duration_since(b.clone()) == *a - *b }
    yes_time_secs(a: T, b: T, n: u32) { let d = D::seconds((*n).into()); ((*a - *b).num_seconds() > i64::from(*n)) == (*a - *b >= d + D::seconds(1)) }
    no_time_secs(a: T, b: T, n: u32) { ((*a - *b).num_seconds() > i64::from(*n)) == (*a - *b > D::seconds((*n).into())) }
    no_time_millis(a: T, b: T) { ((*a - *b).num_milliseconds() > 0) == (a > b) }
    no_time_timestamp(a: T, b: T) { (a.timestamp() < b.timestamp()) == (a < b) }
    yes_time_timestamp(a: T, b: T) { !(a.timestamp() < b.timestamp()) || a < b }
    yes_time_subsec(a: T) { a.timestamp_subsec_nanos() < 1_000_000_000 }
    yes_time_parts(a: T, b: T) { ((a.timestamp(), a.timestamp_subsec_nanos()) < (b.timestamp(), b.timestamp_subsec_nanos())) == (a < b) }
    yes_time_range(a: T, b: T, c: T) { (*a..=*b).contains(c) == (a <= c && c <= b) && (..*b).contains(c) == (c < b) }
    yes_time_opt(a: Option<T>, b: T) { a.map_or(true, |a| a <= *b) == !a.map_or(false, |a| a > *b) && a.filter(|a| a > b).is_some() == a.is_some_and(|a| a > *b) }
    yes_time_opt_cmp(a: Option<T>, b: T) { (*a > Some(*b)) == a.is_some_and(|a| a > *b) }
    yes_time_clone(a: T) { a.clone() == *a && a.to_owned() == *a }
    yes_time_with_tz(a: T) { a.with_timezone(&chrono::Utc) == *a }
    yes_time_naive(a: T, b: T) { (a.naive_utc() < b.naive_utc()) == (a < b) }
    yes_time_default(a: T) { T::default().timestamp() == 0 }
    yes_dur_units(n: u32) { let n = i64::from(*n); D::minutes(n) == D::seconds(n * 60) && D::hours(n) == D::minutes(n * 60) && D::milliseconds(n * 1000) == D::seconds(n) && D::days(1) == D::hours(24) }
    yes_dur_zero(n: u32) { (D::seconds(i64::from(*n)) == D::zero()) == (*n == 0) && D::seconds(i64::from(*n)).is_zero() == (*n == 0) }
    yes_dur_ops(a: u32, b: u32) { let (a, b) = (i64::from(*a), i64::from(*b)); D::seconds(a) + D::seconds(b) == D::seconds(a + b) && D::seconds(a) - D::seconds(b) == D::seconds(a - b) && -D::seconds(a) == D::seconds(-a) }
    yes_dur_mul(a: u32) { D::seconds(1) * 3 == D::seconds(3) && D::seconds(i64::from(*a)) * 2 == D::seconds(i64::from(*a) * 2) }
    yes_dur_std(a: u32) { D::from_std(std::time::Duration::from_secs(u64::from(*a))).ok() == Some(D::seconds(i64::from(*a))) }
    yes_dur_to_std(a: T, b: T) { (*a - *b).to_std().is_ok() == (a >= b) }
    yes_dur_abs(a: u32) { D::seconds(-i64::from(*a)).num_seconds() == -i64::from(*a) }
    yes_dur_max(a: u32) { D::seconds(i64::from(*a)) <= D::max_value() && D::seconds(i64::from(*a)) > D::min_value() }
    yes_dur_checked(a: u32, b: u32) { D::seconds(i64::from(*a)).checked_add(&D::seconds(i64::from(*b))) == Some(D::seconds(i64::from(*a) + i64::from(*b))) }
    yes_dur_num(a: u32) { D::seconds(i64::from(*a)).num_minutes() == i64::from(*a) / 60 && D::seconds(i64::from(*a)).num_milliseconds() == i64::from(*a) * 1000 }
}
