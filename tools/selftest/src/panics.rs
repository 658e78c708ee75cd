//! `ok`: functions no argument can make panic; `boom`: functions some argument makes panic.
#![allow(dead_code, unused, clippy::all)]
use std::collections::*;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct P { pub name: String, pub value: u32, pub more: Vec<String>, pub opt: Option<String> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E { X, Y, Z }
#[derive(Clone, Debug, PartialEq)]
pub struct Err2(pub String);
impl From<std::num::ParseIntError> for Err2 { fn from(e: std::num::ParseIntError) -> Self { Err2(e.to_string()) } }

pub mod ok {
use super::*;
pub fn split_at1(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); if v.len() < 3 { return 0; } let (a, b) = v.split_at(2); a[0].len() + a[1].len() + b[0].len() }
pub fn split_at2(s: &str) -> String { match s.find('=') { Some(i) => { let (a, b) = s.split_at(i); format!("{}{}", &b[1..], a) } None => String::new() } }
pub fn split_at3(v: &[u32]) -> u32 { let (a, b) = v.split_at(v.len() / 2); a.iter().chain(b).fold(0u32, |x, y| x.wrapping_add(*y)) }
pub fn chunks1(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let mut n = 0usize; for c in v.chunks(2) { n = n.wrapping_add(c[0].len()); if c.len() == 2 { n = n.wrapping_add(c[1].len()); } } n }
pub fn chunks2(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); v.chunks(2).filter(|c| match c { [a, b] => a == b, _ => false }).count() }
pub fn chunks3(v: &[u32]) -> bool { v.chunks_exact(2).all(|p| p[0] < p[1]) }
pub fn windows1(v: &[f32]) -> bool { v.windows(2).all(|p| p[0] < p[1]) }
pub fn windows2(v: &[u32]) -> bool { for p in v.windows(3) { if p[0] > p[2] { return false; } } true }
pub fn first_rest(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); match v.split_first() { Some((a, r)) => a.len().max(r.len()), None => 0 } }
pub fn last_rest(v: &[u32]) -> u32 { match v.split_last() { Some((a, r)) => *a, None => 0 } }
pub fn pat1(s: &str) -> usize { let v: Vec<&str> = s.split(':').collect(); match v.as_slice() { [] => 0, [a] => a.len(), [a, .., b] => b.len() } }
pub fn pat2(s: &str) -> usize { let v: Vec<&str> = s.split(':').collect(); if let [a, b, rest @ ..] = &v[..] { rest.len() } else { 0 } }
pub fn pat3(s: &str) -> usize { let v: Vec<&str> = s.split(':').collect(); match v[..] { [a, b] => a.len(), [a, b, c] => c.len(), _ => 0 } }
pub fn get1(s: &str) -> &str { let v: Vec<&str> = s.split(' ').collect(); v.get(7).copied().unwrap_or("") }
pub fn get2(s: &str) -> &str { s.get(1..).unwrap_or("") }
pub fn get3(s: &str) -> &str { s.get(0..4).unwrap_or_default() }
pub fn find1(s: &str) -> &str { match s.find(' ') { Some(i) => &s[i + 1..], None => s } }
pub fn find2(s: &str) -> &str { match s.find('[') { Some(i) => &s[..i], None => s } }
pub fn find3(s: &str) -> (&str, &str) { if let Some(i) = s.find("::") { (&s[..i], &s[i + 2..]) } else { (s, "") } }
pub fn rfind1(s: &str) -> &str { match s.rfind('/') { Some(i) => &s[i + 1..], None => s } }
pub fn prefix1(s: &str) -> &str { if s.starts_with("pt=") { &s[3..] } else { s } }
pub fn prefix2(s: &str) -> &str { if s.starts_with("pt=") { &s["pt=".len()..] } else { s } }
pub fn prefix3(s: &str) -> &str { s.strip_prefix("a").and_then(|r| r.strip_suffix("b")).unwrap_or(s) }
pub fn suffix1(s: &str) -> &str { if s.ends_with(']') { &s[..s.len() - 1] } else { s } }
pub fn braces(s: &str) -> Option<&str> { if s.starts_with('[') && s.ends_with(']') { Some(&s[1..s.len() - 1]) } else { None } }
pub fn depth1(s: &str) -> i32 { let mut d = 0i32; for t in s.split(',') { d += i32::from(t.contains('[')) - i32::from(t.contains(']')); } d }
pub fn depth2(s: &str) -> i32 { let mut d = 0; for t in s.split(',') { if t.contains('[') { d += 1; } if t.contains(']') { d -= 1; } } d }
pub fn depth3(s: &str) -> usize { let mut d = 0usize; for c in s.chars() { match c { '[' => d += 1, ']' => d = d.saturating_sub(1), _ => () } } d }
pub fn depth4(s: &str) -> i64 { s.split(',').map(|t| if t.is_empty() { -1i64 } else { 1 }).sum() }
pub fn count1(s: &str) -> usize { s.split(' ').filter(|t| t.is_empty()).count() + 1 }
pub fn count2(s: &str) -> u32 { let mut n = 0u32; for l in s.lines() { n += 1; } n }
pub fn enum1(s: &str) -> usize { let mut m = 0; for (i, l) in s.lines().enumerate() { m = i + 1; } m }
pub fn rangeloop(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let mut n = 0usize; for i in 0..v.len() { n = n.wrapping_add(v[i].len()); } n }
pub fn rangeloop2(s: &str) -> bool { let v: Vec<&str> = s.split(' ').collect(); for i in 1..v.len() { if v[i - 1] == v[i] { return true; } } false }
pub fn whileloop(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let mut i = 0; while i + 1 < v.len() { if v[i] == v[i + 1] { break; } i += 2; } i }
pub fn whilelet(s: &str) -> usize { let mut v: Vec<&str> = s.split(' ').collect(); let mut n = 0usize; while let Some(x) = v.pop() { n = n.wrapping_add(x.len()); } n }
pub fn deque1(s: &str) -> usize { let mut v: VecDeque<&str> = s.split(' ').collect(); let mut n = 0usize; while let Some(x) = v.pop_front() { n = n.max(x.len()); } n }
pub fn step1(v: &[u32]) -> u32 { let mut m = 0; for i in (0..v.len()).step_by(2) { m = m.max(v[i]); } m }
pub fn step2(s: &str) -> usize { s.split(' ').step_by(2).count() }
pub fn remove1(mut v: Vec<String>) -> String { if v.is_empty() { return String::new(); } v.remove(0) }
pub fn remove2(mut v: Vec<String>) -> String { if v.len() < 4 { return String::new(); } let a = v.remove(0); let b = v.remove(0); let c = v.remove(1); a + &b + &c }
pub fn drain1(mut v: Vec<String>) -> usize { let n = v.iter().position(|x| x.is_empty()).unwrap_or(v.len()); v.drain(..n).count() }
pub fn splitoff1(mut v: Vec<String>) -> usize { let n = v.iter().take_while(|x| !x.is_empty()).count(); let w = v.split_off(n); w.len() }
pub fn splitoff2(mut v: Vec<String>) -> usize { match v.iter().position(|x| x.is_empty()) { Some(p) => v.split_off(p).len(), None => 0 } }
pub fn insert1(mut v: Vec<u32>) -> Vec<u32> { v.insert(0, 1); v }
pub fn insert2(mut v: Vec<u32>, x: u32) -> Vec<u32> { let p = v.iter().position(|y| *y > x).unwrap_or(v.len()); v.insert(p, x); v }
pub fn swap1(mut v: Vec<u32>) -> Vec<u32> { if v.len() > 1 { v.swap(0, 1); } v }
pub fn swapremove1(mut v: Vec<u32>) -> u32 { if let Some(p) = v.iter().position(|y| *y == 3) { v.swap_remove(p) } else { 0 } }
pub fn trunc1(mut v: Vec<u32>) -> Vec<u32> { v.truncate(3); v }
pub fn sort1(mut v: Vec<u32>) -> Vec<u32> { v.sort(); v.dedup(); v }
pub fn sort2(mut v: Vec<String>) -> Vec<String> { v.sort_unstable(); v }
pub fn sort3(mut v: Vec<(String, u32)>) -> Vec<(String, u32)> { v.sort_by_key(|x| x.1); v }
pub fn sort4(mut v: Vec<(String, u32)>) -> Vec<(String, u32)> { v.sort_by(|a, b| a.1.cmp(&b.1)); v }
pub fn bsearch(v: &[u32]) -> bool { v.binary_search(&3).is_ok() }
pub fn bitand(x: u64) -> [u8; 4] { [(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, (x >> 16) as u8, (x >> 24) as u8] }
pub fn arr1(x: u32) -> u32 { let b = x.to_be_bytes(); b[0] as u32 + b[3] as u32 }
pub fn arr2(x: u8) -> u8 { let t = [1u8, 2, 3, 4]; t[(x & 3) as usize] }
pub fn arr3(x: E) -> &'static str { const T: [&str; 3] = ["x", "y", "z"]; T[x as usize] }
pub fn arr4(v: &[u8]) -> Option<[u8; 4]> { v.try_into().ok() }
pub fn arr5(v: &[u8]) -> u8 { let mut a = [0u8; 8]; for (i, x) in v.iter().take(8).enumerate() { a[i] = *x; } a[7] }
pub fn arr6(v: &[u8]) -> u8 { let mut a = [0u8; 8]; for (x, y) in a.iter_mut().zip(v) { *x = *y; } a[0] }
pub fn rem1(x: u32) -> u32 { x % 10 + x / 10 }
pub fn rem2(x: u32, n: u32) -> u32 { if n == 0 { 0 } else { x % n } }
pub fn rem3(x: u32, n: u32) -> u32 { x.checked_rem(n).unwrap_or(0) }
pub fn shift1(x: u64) -> u64 { let mut r = 0; for i in 0..8 { r |= (x >> (8 * i)) & 0xff; } r }
pub fn add1(x: u8, y: u8) -> u16 { u16::from(x) + u16::from(y) }
pub fn add2(x: u32) -> u64 { u64::from(x) * 4 + 7 }
pub fn sub1(a: u32, b: u32) -> u32 { if a > b { a - b } else { b - a } }
pub fn sub2(s: &str) -> usize { s.len().saturating_sub(1) }
pub fn sub3(s: &str) -> usize { let n = s.trim_start().len(); s.len() - n }
pub fn abs1(a: u32, b: u32) -> u32 { a.abs_diff(b) }
pub fn cmp1(a: u32, b: u32) -> u32 { a.max(b) - a.min(b) }
pub fn clamp1(a: u32) -> u32 { a.clamp(1, 5) + 1 }
pub fn minlen(s: &str) -> &[u8] { let n = s.len().min(51); &s.as_bytes()[..n] }
pub fn bytes1(s: &str) -> bool { let b = s.as_bytes(); b.len() > 1 && b[0] == b'a' && b[1] == b'=' }
pub fn bytes2(s: &str) -> bool { s.as_bytes().first() == Some(&b'a') }
pub fn bytes3(s: &str) -> usize { let b = s.as_bytes(); let mut i = 0; while i < b.len() && b[i] != b'=' { i += 1; } i }
pub fn chars1(s: &str) -> String { s.chars().rev().collect() }
pub fn chars2(s: &str) -> Option<char> { s.chars().nth(3) }
pub fn chars3(s: &str) -> usize { s.char_indices().map(|(i, _)| i).last().unwrap_or(0) }
pub fn chars4(s: &str) -> &str { for (i, c) in s.char_indices() { if c == '=' { return &s[i + 1..]; } } s }
pub fn chars5(s: &str) -> &str { for (i, c) in s.char_indices() { if c == '=' { return &s[..i]; } } s }
pub fn chars6(s: &str) -> &str { let mut it = s.chars(); it.next(); it.as_str() }
pub fn digit1(c: char) -> u32 { c.to_digit(16).unwrap_or(0) }
pub fn digit2(s: &str) -> u32 { s.chars().filter_map(|c| c.to_digit(10)).max().unwrap_or(0) }
pub fn hex1(s: &str) -> Option<u8> { u8::from_str_radix(s, 16).ok() }
pub fn hex2(s: &str) -> Option<Vec<u8>> { s.split(':').map(|b| u8::from_str_radix(b, 16).ok()).collect() }
pub fn fold1(s: &str) -> usize { s.split(' ').fold(0usize, |n, t| n.max(t.len())) }
pub fn fold2(s: &str) -> String { s.split(' ').fold(String::new(), |mut a, t| { if !a.is_empty() { a.push(' '); } a.push_str(t); a }) }
pub fn tryfold(s: &str) -> Option<u32> { s.split(' ').try_fold(0u32, |n, t| n.checked_add(t.parse::<u32>().ok()?)) }
pub fn foreach1(s: &str) -> Vec<String> { let mut v = vec![]; s.split(' ').for_each(|t| v.push(t.to_string())); v }
pub fn tryeach(s: &str) -> Result<(), Err2> { s.split(' ').try_for_each(|t| { t.parse::<u32>()?; Ok(()) }) }
pub fn part1(s: &str) -> (Vec<&str>, Vec<&str>) { s.split(' ').partition(|t| t.is_empty()) }
pub fn unzip1(s: &str) -> (Vec<usize>, Vec<&str>) { s.split(' ').enumerate().unzip() }
pub fn group1(s: &str) -> BTreeMap<String, usize> { let mut m = BTreeMap::new(); for t in s.split(' ') { *m.entry(t.to_string()).or_insert(0usize) = 1; } m }
pub fn map1(s: &str) -> u32 { let m: HashMap<&str, u32> = [("a", 1), ("b", 2)].into_iter().collect(); m.get(s).copied().unwrap_or(0) }
pub fn set1(s: &str) -> bool { let mut m = HashSet::new(); s.split(' ').all(|t| m.insert(t)) }
pub fn set2(s: &str) -> bool { const T: [&str; 3] = ["x", "y", "z"]; T.contains(&s) }
pub fn table1(s: &str) -> Option<E> { const T: &[(&str, E)] = &[("x", E::X), ("y", E::Y), ("z", E::Z)]; T.iter().find(|(n, _)| *n == s).map(|(_, e)| *e) }
pub fn unwrap1(s: &str) -> &str { s.split(' ').next().unwrap() }
pub fn unwrap2(s: &str) -> &str { s.splitn(2, '=').next().expect("first") }
pub fn unwrap3(s: &str) -> &str { if s.contains('=') { s.split_once('=').unwrap().1 } else { s } }
pub fn unwrap4(s: &str) -> &str { if s.contains('=') { s.splitn(2, '=').nth(1).unwrap() } else { s } }
pub fn unwrap5(v: &[u32]) -> u32 { if v.is_empty() { 0 } else { *v.first().unwrap() + 0 } }
pub fn unwrap6(v: &[u32]) -> u32 { if v.is_empty() { 0 } else { *v.iter().max().unwrap() } }
pub fn unwrap7(o: Option<u32>) -> u32 { if o.is_some() { o.unwrap() } else { 0 } }
pub fn unwrap8(s: &str) -> &str { s.rsplit(' ').next().unwrap() }
pub fn unwrap9(s: &str) -> &str { s.split(' ').last().unwrap() }
pub fn unwrap10(s: &str) -> u32 { if s.parse::<u32>().is_ok() { s.parse::<u32>().unwrap() } else { 0 } }
pub fn unwrap11(s: &str) -> String { let mut r = String::new(); use std::fmt::Write; write!(r, "{}", s).unwrap(); r }
pub fn peek1(s: &str) -> usize { let mut n = 0; let mut it = s.split(' ').peekable(); while it.peek().is_some() { let t = it.next().unwrap(); n = t.len(); } n }
pub fn peek2(s: &str) -> usize { let mut n = 0; let mut it = s.split(' ').peekable(); while let Some(t) = it.next_if(|x| x.len() > 2) { n = t.len(); } n }
pub fn rev1(v: &[u32]) -> u32 { for i in (0..v.len()).rev() { if v[i] == 3 { return v[i]; } } 0 }
pub fn last1(s: &str) -> &str { let v: Vec<&str> = s.split(' ').collect(); v[v.len() - 1] }
pub fn last2(v: &[u32]) -> u32 { match v.len() { 0 => 0, n => v[n - 1] } }
pub fn matchlen(s: &str) -> &str { let v: Vec<&str> = s.split(' ').collect(); match v.len() { 1 => v[0], 2 => v[1], _ => v[2] } }
pub fn matchlen2(s: &str) -> &str { let v: Vec<&str> = s.split_whitespace().collect(); match v.len() { 0 => "", n if n > 3 => v[3], n => v[n - 1] } }
pub fn slices(s: &str) -> usize { let v: Vec<&str> = s.split_whitespace().collect(); if v.len() < 2 { return 0; } v[1..].len() + v[2..].join(" ").len().min(1) }
pub fn mapidx(s: &str) -> Vec<&str> { let v: Vec<&str> = s.split(' ').collect(); (0..v.len()).map(|i| v[i]).collect() }
pub fn zip1(a: &[u32], b: &[u32]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y) }
pub fn zip2(a: &[u32], b: &[u32]) -> bool { if a.len() != b.len() { return false; } for i in 0..a.len() { if a[i] != b[i] { return false; } } true }
pub fn rc1(s: &str) -> usize { let r = std::rc::Rc::new(s.to_string()); r.len() }
pub fn cell1(x: u32) -> u32 { let c = std::cell::Cell::new(x); c.set(3); c.get() }
pub fn opt1(p: &P) -> String { p.opt.as_ref().map_or_else(String::new, |x| format!(" {x}")) }
pub fn opt2(p: &P) -> String { let mut o = String::new(); if let Some(x) = &p.opt { o += " "; o += x; } o }
pub fn opt3(p: &mut P) -> Option<String> { p.opt.take() }
pub fn fmt1(p: &P) -> String { let mut o = format!("{} {:>5} {:02X}", p.name, p.value, p.value as u8); o.push_str(&p.more.join(",")); o }
pub fn fmt2(p: &P) -> String { [p.name.as_str(), "x"].concat() }
pub fn fmt3(p: &P) -> String { p.more.iter().map(|x| format!("a={x}\r\n")).collect::<Vec<_>>().concat() }
pub fn fromfn(s: &str) -> Vec<&str> { let mut it = s.split(' '); std::iter::from_fn(|| it.next()).collect() }
pub fn succ(x: u32) -> u32 { std::iter::successors(Some(x), |y| if *y > 9 { Some(y / 10) } else { None }).count() as u32 }
pub fn retain1(mut v: Vec<String>) -> Vec<String> { let mut seen = HashSet::new(); v.retain(|x| seen.insert(x.clone())); v }
pub fn label(s: &str) -> usize { let mut n = 0usize; 'o: for a in s.split(' ') { for b in a.split(',') { if b.is_empty() { continue 'o; } n = b.len(); } } n }
pub fn closure1(s: &str) -> Result<u32, Err2> { let num = |i: usize| -> Result<u32, Err2> { s.split(' ').nth(i).ok_or_else(|| Err2("x".into()))?.parse::<u32>().map_err(Err2::from) }; Ok(num(0)?.wrapping_add(num(1)?)) }
pub fn floats(s: &str) -> bool { s.parse::<f64>().map(|x| x > 0.0 && x.is_finite()).unwrap_or(false) }
pub fn char1(x: u32) -> Option<char> { char::from_u32(x) }
pub fn ascii(s: &str) -> bool { s.is_ascii() && !s.is_empty() && s[..1].eq_ignore_ascii_case("a") }
pub fn ascii2(s: &str) -> bool { s.len() == 1 && s.is_char_boundary(1) && s.to_ascii_lowercase() == "a" }
pub fn replace1(s: &str) -> String { s.replace("  ", " ").replacen('a', "b", 1) }
pub fn repeat1(n: u8) -> String { " ".repeat(usize::from(n)) }
pub fn trimm(s: &str) -> &str { s.trim_matches(|c: char| c == '[' || c == ']').trim_start_matches("a=").trim_end_matches(';') }
pub fn mapidx1(m: &mut std::collections::HashMap<u32, u32>, k: u32) -> u32 { if !m.contains_key(&k) { m.insert(k, 1); } m[&k] }
pub fn mapidx2(m: &std::collections::HashMap<String, u32>, k: &String) -> u32 { if m.contains_key(k) { m[k] } else { 0 } }
pub fn mapidx3(m: &mut std::collections::HashMap<u32, u32>, v: &[u32]) -> u32 { let mut n = 0u32; for k in v { if !m.contains_key(k) { m.insert(*k, 7); } n = n.wrapping_add(m[k]); } n }
pub fn memtake1(v: &mut Vec<String>) -> usize { let w = std::mem::take(v); if w.is_empty() { 0 } else { w[0].len() } }
pub fn memtake2(v: &mut Vec<String>) -> usize { let w = std::mem::take(v); let kept: Vec<String> = w.into_iter().filter(|x| !x.is_empty()).collect(); *v = kept; if v.len() > 1 { v[1].len() } else { 0 } }
pub fn memrep1(v: &mut Vec<String>) -> String { let mut w = std::mem::replace(v, vec![String::new()]); v[0].push('x'); w.pop().unwrap_or_default() }
pub fn extopt1(a: Option<u32>) -> u32 { let mut v = vec![1u32, 2]; v.extend(a); v[1] }
pub fn extopt2(a: Option<&u32>) -> u32 { let mut v = vec![1u32, 2]; v.extend(a.iter().map(|x| **x)); v[1] }
}

pub mod boom {
use super::*;
pub fn split_at1(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let (a, b) = v.split_at(2); a.len() }
pub fn split_at2(s: &str) -> &str { s.split_at(1).1 }
pub fn split_at3(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); if v.len() < 3 { return 0; } let (a, b) = v.split_at(3); b[0].len() }
pub fn chunks1(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let mut n = 0usize; for c in v.chunks(2) { n = c[1].len(); } n }
pub fn chunks2(v: &[u32], n: usize) -> usize { v.chunks(n).count() }
pub fn windows1(v: &[u32]) -> bool { v.windows(2).all(|p| p[0] < p[2]) }
pub fn windows2(v: &[u32], n: usize) -> usize { v.windows(n).count() }
pub fn chunks3(v: &[u32]) -> bool { v.chunks_exact(2).all(|p| p[0] < p[2]) }
pub fn find1(s: &str) -> &str { match s.find('=') { Some(i) => &s[i + 2..], None => s } }
pub fn find2(s: &str) -> &str { match s.find(|c: char| c.is_whitespace()) { Some(i) => &s[i + 1..], None => s } }
pub fn prefix1(s: &str) -> &str { if s.starts_with("pt") { &s[3..] } else { s } }
pub fn slice1(s: &str) -> &str { if s.len() > 3 { &s[3..] } else { s } }
pub fn braces(s: &str) -> Option<&str> { if s.starts_with('[') || s.ends_with(']') { Some(&s[1..s.len() - 1]) } else { None } }
pub fn depth(s: &str) -> usize { let mut d = 1usize; for c in s.chars() { match c { '[' => d += 1, ']' => d -= 1, _ => () } } d }
pub fn depth2(s: &str) -> i8 { let mut d = 0i8; for t in s.split(',') { d += 1; } d }
pub fn depth4(s: &str) -> i32 { let mut d = 0i32; for t in s.split(',') { d += i32::from(t.contains('[')) * 1000; } d }
pub fn sum1(v: &[u32]) -> u32 { v.iter().sum() }
pub fn remove1(mut v: Vec<String>) -> String { v.remove(0) }
pub fn remove2(mut v: Vec<String>) -> String { if v.len() < 2 { return String::new(); } let a = v.remove(0); let b = v.remove(1); a + &b }
pub fn splitoff1(mut v: Vec<String>) -> usize { let n = v.iter().take_while(|x| !x.is_empty()).count(); v.split_off(n + 1).len() }
pub fn splitoff2(mut v: Vec<String>, w: Vec<String>) -> usize { let n = w.iter().take_while(|x| !x.is_empty()).count(); v.split_off(n).len() }
pub fn drain1(mut v: Vec<String>) -> usize { v.drain(..2).count() }
pub fn insert1(mut v: Vec<u32>) -> Vec<u32> { v.insert(1, 1); v }
pub fn insert2(mut v: Vec<u32>, x: u32) -> Vec<u32> { let p = v.iter().position(|y| *y > x).unwrap_or(v.len() + 1); v.insert(p, x); v }
pub fn swap1(mut v: Vec<u32>) -> Vec<u32> { if v.len() > 0 { v.swap(0, 1); } v }
pub fn swapremove1(mut v: Vec<u32>) -> u32 { v.swap_remove(0) }
pub fn step1(v: &[u32], n: usize) -> usize { v.iter().step_by(n).count() }
pub fn step2(v: &[u32]) -> u32 { let mut m = 0; for i in (0..v.len()).step_by(2) { m = v[i + 1]; } m }
pub fn arr2(x: u8) -> u8 { let t = [1u8, 2, 3, 4]; t[(x & 7) as usize] }
pub fn arr5(v: &[u8]) -> u8 { let mut a = [0u8; 8]; for (i, x) in v.iter().take(9).enumerate() { a[i] = *x; } a[7] }
pub fn arr6(v: &[u8]) -> u8 { let mut a = [0u8; 4]; a.copy_from_slice(v); a[0] }
pub fn rem2(x: u32, n: u32) -> u32 { x % n }
pub fn div1(x: i32) -> i32 { x / -1 }
pub fn shift1(x: u64, n: u32) -> u64 { x << n }
pub fn add1(x: u8, y: u8) -> u8 { x + y }
pub fn sub1(a: u32, b: u32) -> u32 { a - b }
pub fn sub3(s: &str, t: &str) -> usize { s.len() - t.len() }
pub fn abs1(a: i32) -> i32 { a.abs() }
pub fn neg1(a: i32) -> i32 { -a }
pub fn pow1(a: u32) -> u32 { a.pow(2) }
pub fn clamp1(a: u32, n: u32) -> u32 { a.clamp(5, n) }
pub fn bytes1(s: &str) -> bool { let b = s.as_bytes(); b[0] == b'a' }
pub fn bytes3(s: &str) -> usize { let b = s.as_bytes(); let mut i = 0; while b[i] != b'=' { i += 1; } i }
pub fn digit1(c: char, r: u32) -> u32 { c.to_digit(r).unwrap_or(0) }
pub fn hex1(s: &str, r: u32) -> Option<u8> { u8::from_str_radix(s, r).ok() }
pub fn unwrap1(s: &str) -> &str { s.split(' ').nth(1).unwrap() }
pub fn unwrap2(s: &str) -> &str { s.split_whitespace().next().expect("first") }
pub fn unwrap3(s: &str) -> &str { if s.contains('-') { s.split_once('=').unwrap().1 } else { s } }
pub fn unwrap5(v: &[u32]) -> u32 { *v.first().unwrap() }
pub fn unwrap6(v: &[u32]) -> u32 { *v.iter().max().unwrap() }
pub fn unwrap10(s: &str) -> u32 { if s.parse::<u64>().is_ok() { s.parse::<u32>().unwrap() } else { 0 } }
pub fn map1(s: &str) -> u32 { let m: HashMap<&str, u32> = [("a", 1), ("b", 2)].into_iter().collect(); m[s] }
pub fn last1(s: &str) -> &str { let v: Vec<&str> = s.split_whitespace().collect(); v[v.len() - 1] }
pub fn matchlen(s: &str) -> &str { let v: Vec<&str> = s.split(' ').collect(); match v.len() { 1 => v[0], 2 => v[1], _ => v[3] } }
pub fn slices(s: &str) -> usize { let v: Vec<&str> = s.split_whitespace().collect(); v[1..].len() }
pub fn zip2(a: &[u32], b: &[u32]) -> bool { for i in 0..a.len() { if a[i] != b[i] { return false; } } true }
pub fn cell1(x: u32) -> u32 { let c = std::cell::RefCell::new(x); let a = c.borrow_mut(); let b = c.borrow(); *b }
pub fn unreach(s: &str) -> u32 { match s.len() { 0 => 1, 1 => 2, _ => unreachable!() } }
pub fn todo1(s: &str) -> u32 { if s.is_empty() { todo!() } else { 1 } }
pub fn assert1(s: &str) -> u32 { assert!(!s.contains('\0')); 1 }
pub fn dassert(s: &str) -> u32 { debug_assert_eq!(s.len() % 2, 0); 1 }
pub fn ascii(s: &str) -> bool { !s.is_empty() && s[..1].eq_ignore_ascii_case("a") }
pub fn repeat1(n: usize) -> String { " ".repeat(n) }
pub fn exptail(s: &str) -> &str { &s[s.len() - 2..] }
pub fn trimmed(s: &str) -> &str { let t = s.trim(); &s[t.len() + 1..] }
pub fn fmtw(n: usize) -> String { format!("{:>1$}", 1, n) }
pub fn str_insert(s: &str) -> String { let mut t = s.to_string(); t.insert(1, 'a'); t }
pub fn str_trunc(s: &str) -> String { let mut t = s.to_string(); t.truncate(20); t }
pub fn str_remove(s: &str) -> char { let mut t = s.to_string(); t.remove(0) }
pub fn str_drain(s: &str) -> String { let mut t = s.to_string(); t.drain(..2); t }
pub fn str_splitoff(s: &str) -> String { let mut t = s.to_string(); t.split_off(1) }
pub fn str_range(s: &str) -> String { let mut t = s.to_string(); t.replace_range(0..1, "x"); t }
}

/// second batch: shapes of parsing code
pub mod ok2 {
use super::*;
pub fn hexpairs(s: &str) -> Option<Vec<u8>> { let b = s.as_bytes(); if b.len() % 2 != 0 { return None; } let mut v = Vec::with_capacity(b.len() / 2); for c in b.chunks_exact(2) { v.push((c[0] as char).to_digit(16)? as u8 * 16 + (c[1] as char).to_digit(16)? as u8); } Some(v) }
pub fn pushlast(s: &str) -> String { let mut v: Vec<String> = Vec::new(); v.push(s.to_string()); v.last_mut().unwrap().push('x'); v.pop().unwrap() }
pub fn guardlast(mut v: Vec<String>) -> Vec<String> { if v.is_empty() { v.push(String::new()); } v.last_mut().unwrap().push('x'); v }
pub fn guardlast2(mut v: Vec<String>) -> Vec<String> { if let Some(l) = v.last_mut() { l.push('x'); } else { v.push("x".into()); } v }
pub fn checkedsub(v: &[u32], i: usize) -> Option<u32> { i.checked_sub(1).and_then(|j| v.get(j)).copied() }
pub fn pairs1(v: &[u32]) -> bool { v.iter().zip(v.iter().skip(1)).all(|(a, b)| a < b) }
pub fn revenum(v: &[u32]) -> usize { v.iter().rev().enumerate().map(|(i, _)| i).max().unwrap_or(0) }
pub fn rposition(v: &[u32]) -> u32 { match v.iter().rposition(|x| *x == 3) { Some(i) => v[i], None => 0 } }
pub fn posidx(v: &[u32]) -> u32 { match v.iter().position(|x| *x == 3) { Some(i) => v[i], None => 0 } }
pub fn posrest(v: &[u32]) -> &[u32] { match v.iter().position(|x| *x == 3) { Some(i) => &v[i + 1..], None => v } }
pub fn enumidx(v: &[u32]) -> u32 { for (i, x) in v.iter().enumerate() { if *x == 0 { return v[i]; } } 0 }
pub fn enumrest(v: &[u32]) -> &[u32] { for (i, x) in v.iter().enumerate() { if *x == 0 { return &v[i + 1..]; } } v }
pub fn loopshift(s: &str) -> usize { let mut v: Vec<&str> = s.split(' ').collect(); let mut n = 0usize; while !v.is_empty() { let t = v.remove(0); n = n.max(t.len()); } n }
pub fn looprest(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let mut r = &v[..]; let mut n = 0usize; while let Some((a, b)) = r.split_first() { n = n.max(a.len()); r = b; } n }
pub fn looprest2(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let mut r = v.as_slice(); let mut n = 0usize; while !r.is_empty() { n = n.max(r[0].len()); r = &r[1..]; } n }
pub fn looprest3(s: &str) -> usize { let mut r = s; let mut n = 0usize; while let Some(i) = r.find(' ') { n = n.max(i); r = &r[i + 1..]; } n }
pub fn splitslash(s: &str) -> (u8, u32) { let p: Vec<&str> = s.split('/').collect(); let ttl = if p.len() > 1 { p[1].parse().unwrap_or(0) } else { 0 }; let n = if p.len() > 2 { p[2].parse().unwrap_or(1) } else { 1 }; (ttl, n) }
pub fn quotes(s: &str) -> &str { if s.len() >= 2 && s.starts_with('"') && s.ends_with('"') { &s[1..s.len() - 1] } else { s } }
pub fn brackets(s: &str) -> Option<&str> { let i = s.find('[')?; let r = &s[i + 1..]; let j = r.find(']')?; Some(&r[..j]) }
pub fn brackets2(s: &str) -> Option<&str> { let i = s.find('[')?; let j = s[i..].find(']')?; Some(&s[i..i + j]) }
pub fn keyval(s: &str) -> (&str, &str) { let i = s.find('=').unwrap_or(s.len()); (&s[..i], s.get(i + 1..).unwrap_or("")) }
pub fn keyval2(s: &str) -> (&str, &str) { match s.split_once('=') { Some((a, b)) => (a.trim(), b.trim()), None => (s, "") } }
pub fn keyval3(s: &str) -> (&str, &str) { match s.find('=') { Some(i) if i > 0 => (&s[..i], &s[i + 1..]), _ => (s, "") } }
pub fn linetype(s: &str) -> Option<(char, &str)> { let mut c = s.chars(); let t = c.next()?; if c.next()? != '=' { return None; } Some((t, c.as_str())) }
pub fn linetype2(s: &str) -> Option<(&str, &str)> { if s.len() < 2 || !s.is_char_boundary(2) { return None; } Some(s.split_at(2)) }
pub fn linetype3(s: &str) -> Option<u8> { match s.as_bytes() { [t, b'=', ..] => Some(*t), _ => None } }
pub fn linetype4(s: &str) -> Option<(&u8, &[u8])> { match s.as_bytes() { [t, b'=', rest @ ..] => Some((t, rest)), _ => None } }
pub fn exact3(s: &str) -> Option<[&str; 3]> { let v: Vec<&str> = s.split(' ').collect(); v.try_into().ok() }
pub fn exact4(s: &str) -> Option<u32> { let v: Vec<&str> = s.split(' ').collect(); let [a, b] = v[..] else { return None }; a.parse().ok() }
pub fn exact5(s: &str) -> Option<&str> { let mut it = s.split(' '); let (Some(a), Some(b), None) = (it.next(), it.next(), it.next()) else { return None }; Some(b) }
pub fn lenchain(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); if v.len() != 6 { return 0; } let o: usize = v[5].parse().unwrap_or(0); o.min(v[3].len()).saturating_add(v[0].len()) }
pub fn nestguard(s: &str) -> &str { let v: Vec<&str> = s.split(' ').collect(); if v.len() > 4 && v[4] == "x" || v.len() == 3 && v[2] == "y" { v[2] } else { v[0] } }
pub fn typguard(v: &[&str]) -> usize { let mut i = 8; let mut n = 0usize; while i < v.len() { match v[i] { "raddr" | "rport" => { if i + 1 >= v.len() { break; } n = n.max(v[i + 1].len()); i += 2; } _ => i += 1 } } n }
pub fn typguard2(v: &[&str]) -> usize { if v.len() < 8 { return 0; } let mut n = 0; for c in v[8..].chunks(2) { if let [k, w] = c { n = w.len(); } } n }
pub fn typguard3(v: &[&str]) -> Result<usize, String> { if v.len() < 8 { return Err("short".into()); } let mut it = v[8..].iter(); let mut n = 0; while let Some(k) = it.next() { let w = it.next().ok_or_else(|| format!("no value for {}", k))?; n = w.len(); } Ok(n) }
pub fn state1(s: &str) -> Vec<String> { let mut out = vec![]; let mut cur = String::new(); let mut depth = 0u32; for c in s.chars() { match c { '[' => { depth += 1; cur.push(c); } ']' if depth > 0 => { depth -= 1; cur.push(c); } ',' if depth == 0 => { out.push(std::mem::take(&mut cur)); } _ => cur.push(c) } } out.push(cur); out }
pub fn state2(s: &str) -> Vec<String> { let mut out: Vec<String> = vec![String::new()]; for c in s.chars() { if c == ',' { out.push(String::new()); } else { let n = out.len(); out[n - 1].push(c); } } out }
pub fn state3(s: &str) -> Vec<String> { let mut out: Vec<String> = Vec::new(); for t in s.split(',') { if t.starts_with('+') && !out.is_empty() { let i = out.len() - 1; out[i].push_str(&t[1..]); } else { out.push(t.to_string()); } } out }
pub fn group2(s: &str) -> Vec<Vec<&str>> { let mut out: Vec<Vec<&str>> = Vec::new(); for l in s.lines() { if l.starts_with("m=") { out.push(vec![]); } if let Some(m) = out.last_mut() { m.push(l); } } out }
pub fn group3(s: &str) -> Vec<(usize, usize)> { let v: Vec<&str> = s.lines().collect(); let mut starts: Vec<usize> = v.iter().enumerate().filter(|(_, l)| l.starts_with("m=")).map(|(i, _)| i).collect(); starts.push(v.len()); starts.windows(2).map(|w| (w[0], w[1])).collect() }
pub fn sections(v: &[&str]) -> usize { let n = v.iter().position(|l| l.starts_with("m=")).unwrap_or(v.len()); let (a, b) = v.split_at(n); a.len().max(b.len()) }
pub fn range1(s: &str) -> Option<(f32, f32)> { let t = s.strip_prefix('[')?.strip_suffix(']')?; let mut i = t.splitn(2, '-'); let a = i.next().unwrap().parse().ok()?; let b = i.next()?.parse().ok()?; Some((a, b)) }
pub fn range2(x: u32, lo: u32, hi: u32) -> u32 { if lo <= hi { x.clamp(lo, hi) } else { x } }
pub fn step3(s: &str) -> Option<u32> { let v: Vec<&str> = s.split(':').collect(); match v.len() { 2 => v[1].parse().ok(), 3 => v[1].parse::<u32>().ok().and_then(|x| x.checked_add(v[2].parse().ok()?)), _ => None } }
pub fn octets1(s: &str) -> Option<[u8; 4]> { let mut o = [0u8; 4]; let v: Vec<&str> = s.split('.').collect(); if v.len() != 4 { return None; } for (i, p) in v.iter().enumerate() { o[i] = p.parse().ok()?; } Some(o) }
pub fn octets2(s: &str) -> Option<[u8; 4]> { let mut o = [0u8; 4]; let mut it = s.split('.'); for x in o.iter_mut() { *x = it.next()?.parse().ok()?; } Some(o) }
pub fn octets3(s: &str) -> Option<u32> { let mut n = 0u32; for p in s.split('.') { n = n.checked_mul(256)?.checked_add(p.parse::<u8>().ok()?.into())?; } Some(n) }
pub fn bits1(x: u8) -> u8 { (x >> 4) * 16 + (x & 15) }
pub fn bits2(x: u32) -> [u8; 4] { let mut r = [0u8; 4]; for i in 0..4 { r[3 - i] = (x >> (8 * i)) as u8; } r }
pub fn bits3(n: u8) -> u64 { if n < 64 { 1u64 << n } else { 0 } }
pub fn ntp(s: &str) -> u64 { s.parse::<u32>().map(|x| u64::from(x) * 1000 + 5).unwrap_or(0) }
pub fn pct(a: u32, b: u32) -> u32 { if b == 0 { 0 } else { (u64::from(a) * 100 / u64::from(b)).min(100) as u32 } }
pub fn avg(v: &[u32]) -> u64 { if v.is_empty() { return 0; } v.iter().map(|x| u64::from(*x)).sum::<u64>() / v.len() as u64 }
pub fn halves(s: &str) -> (usize, usize) { let n = s.len(); let h = n / 2; (h, n - h) }
pub fn idxopt(p: &P) -> Option<&String> { if p.more.len() > 2 { Some(&p.more[2]) } else { p.more.first() } }
pub fn fieldloop(p: &P) -> usize { let mut n = 0usize; for i in 0..p.more.len() { n = n.max(p.more[i].len()); } n }
pub fn fieldlast(p: &mut P) -> &mut String { if p.more.is_empty() { p.more.push(String::new()); } let i = p.more.len() - 1; &mut p.more[i] }
pub fn mustopt(p: &P) -> &str { if p.opt.is_none() { return ""; } p.opt.as_ref().unwrap() }
pub fn mustopt2(p: &P) -> &str { match (&p.opt, p.value) { (Some(x), 1) => x, (None, _) => "", (_, n) if n > 3 => p.opt.as_deref().unwrap(), _ => "z" } }
pub fn mustopt3(p: &P) -> usize { let has = p.opt.is_some(); let mut n = 0; if has { n = p.opt.as_ref().expect("checked").len(); } n }
pub fn fmtopt(p: &P) -> String { let mut s = String::new(); if !p.more.is_empty() { s.push_str(&p.more[0]); for m in &p.more[1..] { s.push(','); s.push_str(m); } } s }
pub fn fmtopt2(p: &P) -> String { p.more.iter().enumerate().fold(String::new(), |mut a, (i, m)| { if i > 0 { a.push(','); } a + m }) }
pub fn fmtopt3(p: &P) -> String { let mut s: String = p.more.iter().map(|m| format!("{m},")).collect(); s.pop(); s }
pub fn fmtopt4(p: &P) -> String { let n = p.more.len(); p.more.iter().enumerate().map(|(i, m)| if i + 1 == n { m.clone() } else { format!("{m};") }).collect() }
pub fn dedup1(mut v: Vec<String>) -> Vec<String> { let mut i = 0; while i < v.len() { if v[..i].contains(&v[i]) { v.remove(i); } else { i += 1; } } v }
pub fn swapvals(a: &mut u32, b: &mut u32) { std::mem::swap(a, b); }
pub fn unwrapor(s: &str) -> &str { s.split(';').nth(1).unwrap_or_default() }
pub fn infall(x: u8) -> u32 { let y: u32 = x.try_into().unwrap(); y }
pub fn tryint(x: u64) -> u32 { u32::try_from(x).unwrap_or(u32::MAX) }
pub fn tryint2(x: u64) -> u32 { if x < 1000 { u32::try_from(x).unwrap() } else { 0 } }
pub fn tryint3(x: usize) -> u8 { (x % 200).try_into().unwrap() }
pub fn charsub(c: char) -> Option<u8> { if ('a'..='z').contains(&c) { Some(c as u8 - b'a') } else { None } }
pub fn charsub2(c: char) -> u32 { match c { '0'..='9' => c as u32 - '0' as u32, _ => 0 } }
pub fn charsub3(b: u8) -> u8 { match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' => b - b'a' + 10, _ => 0 } }
pub fn charsub4(c: char) -> u8 { if c.is_ascii_digit() { c as u8 - b'0' } else { 0 } }
pub fn takewhile2(s: &str) -> (&str, &str) { let n = s.bytes().take_while(|b| b.is_ascii_digit()).count(); (s.get(..n).unwrap_or(""), s.get(n..).unwrap_or("")) }
pub fn trimend(s: &str) -> &str { let t = s.trim_end(); &s[..t.len()] }
pub fn letelse(s: &str) -> &str { let Some(x) = s.split(' ').nth(2) else { return "" }; x }
pub fn orloop(s: &str) -> u32 { loop { if let Some(x) = s.chars().next() { break x as u32; } else { break 0; } } }
pub fn arrmap(s: &str) -> [usize; 3] { ["a", "b", "c"].map(|x| s.matches(x).count()) }
pub fn tblidx(i: usize) -> &'static str { ["a", "b", "c"].get(i).copied().unwrap_or("d") }
pub fn tblidx2(i: u8) -> &'static str { ["a", "b", "c", "d"][usize::from(i) % 4] }
pub fn cachelen(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let n = v.len(); let mut m = 0usize; for i in 0..n { m = m.max(v[i].len()); } m }
pub fn cachelen2(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let n = v.len(); if n >= 3 { v[n - 3].len() } else { 0 } }
pub fn nested(v: &[Vec<u32>]) -> u32 { let mut m = 0; for i in 0..v.len() { for j in 0..v[i].len() { m = m.max(v[i][j]); } } m }
pub fn boolidx(b: bool) -> &'static str { ["no", "yes"][b as usize] }
pub fn boolidx2(b: bool) -> &'static str { ["no", "yes"][usize::from(b)] }
pub fn maxlen(v: &[String]) -> usize { v.iter().map(|x| x.len()).max().unwrap_or_default() + 2 }
pub fn totlen(v: &[String]) -> usize { v.iter().map(String::len).sum::<usize>() + v.len() }
pub fn totlen2(v: &[String]) -> usize { let mut n = 0; for x in v { n += x.len() + 2; } n }
pub fn cap2(v: &[String]) -> String { let mut s = String::with_capacity(v.iter().map(|x| x.len() + 2).sum()); for x in v { s.push_str(x); } s }
}

pub mod boom2 {
use super::*;
pub fn hexpairs(s: &str) -> Option<Vec<u8>> { let b = s.as_bytes(); let mut v = vec![]; for c in b.chunks(2) { v.push((c[0] as char).to_digit(16)? as u8 * 16 + (c[1] as char).to_digit(16)? as u8); } Some(v) }
pub fn hexpairs2(s: &str) -> Option<Vec<u8>> { let mut v = vec![]; for i in (0..s.len()).step_by(2) { v.push(u8::from_str_radix(&s[i..i + 2], 16).ok()?); } Some(v) }
pub fn guardlast(mut v: Vec<String>) -> Vec<String> { v.last_mut().unwrap().push('x'); v }
pub fn posrest(v: &[u32]) -> &[u32] { match v.iter().position(|x| *x == 3) { Some(i) => &v[i + 2..], None => v } }
pub fn enumrest(v: &[u32]) -> u32 { for (i, x) in v.iter().enumerate() { if *x == 0 { return v[i + 1]; } } 0 }
pub fn posother(v: &[u32], w: &[u32]) -> u32 { match v.iter().position(|x| *x == 3) { Some(i) => w[i], None => 0 } }
pub fn filtidx(v: &[u32]) -> u32 { let n = v.iter().filter(|x| **x == 3).count(); v[n] }
pub fn loopshift(s: &str) -> usize { let mut v: Vec<&str> = s.split(' ').collect(); let mut n = 0usize; while v.len() > 1 { let t = v.remove(0); let u = v.remove(0); let w = v.remove(0); n = t.len(); } n }
pub fn looprest2(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let mut r = v.as_slice(); let mut n = 0usize; while !r.is_empty() { n = n.max(r[0].len()); r = &r[2..]; } n }
pub fn looprest3(s: &str) -> usize { let mut r = s; let mut n = 0usize; while let Some(i) = r.find(' ') { n = n.max(i); r = &r[i + 2..]; } n }
pub fn splitslash(s: &str) -> u32 { let p: Vec<&str> = s.split('/').collect(); let n = if p.len() > 1 { p[2].parse().unwrap_or(1) } else { 1 }; n }
pub fn quotes(s: &str) -> &str { if s.starts_with('"') && s.ends_with('"') { &s[1..s.len() - 1] } else { s } }
pub fn quotes2(s: &str) -> &str { if s.len() >= 2 && s.starts_with('"') { &s[1..s.len() - 1] } else { s } }
pub fn brackets(s: &str) -> Option<&str> { let i = s.find('[')?; let j = s.find(']')?; Some(&s[i..j]) }
pub fn brackets2(s: &str) -> Option<&str> { let i = s.find('[')?; let j = s.rfind(']')?; Some(&s[i + 1..j]) }
pub fn keyval(s: &str) -> (&str, &str) { let i = s.find('=').unwrap_or(s.len()); (&s[..i], &s[i + 1..]) }
pub fn linetype2(s: &str) -> Option<(&str, &str)> { if s.len() < 2 { return None; } Some(s.split_at(2)) }
pub fn nestguard(s: &str) -> &str { let v: Vec<&str> = s.split(' ').collect(); if v.len() > 4 && v[4] == "x" || v.len() == 3 && v[2] == "y" { v[3] } else { v[0] } }
pub fn typguard(v: &[&str]) -> usize { let mut i = 8; let mut n = 0usize; while i < v.len() { match v[i] { "raddr" | "rport" => { n = n.max(v[i + 1].len()); i += 2; } _ => i += 1 } } n }
pub fn typguard2(v: &[&str]) -> usize { let mut n = 0; for c in v[8..].chunks(2) { if let [k, w] = c { n = w.len(); } } n }
pub fn typguard3(v: &[&str]) -> usize { if v.len() < 8 { return 0; } let mut n = 0; for c in v[8..].chunks(2) { n = c[1].len(); } n }
pub fn state1(s: &str) -> u32 { let mut depth = 0u32; for c in s.chars() { match c { '[' => depth += 1, ']' => depth -= 1, _ => {} } } depth }
pub fn state2(s: &str) -> Vec<String> { let mut out: Vec<String> = vec![]; for c in s.chars() { if c == ',' { out.push(String::new()); } else { let n = out.len(); out[n - 1].push(c); } } out }
pub fn state3(s: &str) -> Vec<String> { let mut out: Vec<String> = Vec::new(); for t in s.split(',') { if t.starts_with('+') { let i = out.len() - 1; out[i].push_str(&t[1..]); } else { out.push(t.to_string()); } } out }
pub fn group2(s: &str) -> usize { let mut out: Vec<Vec<&str>> = Vec::new(); for l in s.lines() { if l.starts_with("m=") { out.push(vec![]); } out.last_mut().unwrap().push(l); } out.len() }
pub fn sections(v: &[&str]) -> usize { let n = v.iter().position(|l| l.starts_with("m=")).unwrap_or(v.len()); v[n].len() }
pub fn range2(x: u32, lo: u32, hi: u32) -> u32 { x.clamp(lo, hi) }
pub fn octets1(s: &str) -> Option<[u8; 4]> { let mut o = [0u8; 4]; for (i, p) in s.split('.').enumerate() { o[i] = p.parse().ok()?; } Some(o) }
pub fn octets3(s: &str) -> Option<u32> { let mut n = 0u32; for p in s.split('.') { n = n * 256 + u32::from(p.parse::<u8>().ok()?); } Some(n) }
pub fn bits2(x: u32) -> [u8; 4] { let mut r = [0u8; 4]; for i in 0..4 { r[4 - i] = (x >> (8 * i)) as u8; } r }
pub fn bits3(n: u8) -> u64 { 1u64 << n }
pub fn ntp(s: &str) -> u32 { s.parse::<u32>().map(|x| x * 1000 + 5).unwrap_or(0) }
pub fn pct(a: u32, b: u32) -> u32 { (u64::from(a) * 100 / u64::from(b)) as u32 }
pub fn avg(v: &[u32]) -> u64 { v.iter().map(|x| u64::from(*x)).sum::<u64>() / v.len() as u64 }
pub fn idxopt(p: &P) -> Option<&String> { if p.more.len() > 1 { Some(&p.more[2]) } else { p.more.first() } }
pub fn fieldlast(p: &mut P) -> &mut String { let i = p.more.len() - 1; &mut p.more[i] }
pub fn mustopt(p: &P) -> &str { if p.value == 3 { return ""; } p.opt.as_ref().unwrap() }
pub fn mustopt2(p: &P) -> &str { match (&p.opt, p.value) { (Some(x), 1) => x, (None, 1) => "", (_, n) if n > 3 => p.opt.as_deref().unwrap(), _ => "z" } }
pub fn fmtopt(p: &P) -> String { let mut s = String::new(); s.push_str(&p.more[0]); for m in &p.more[1..] { s.push(','); s.push_str(m); } s }
pub fn fmtopt2(p: &P) -> String { let mut s = String::new(); for m in &p.more { s.push_str(m); s.push(','); } s.truncate(s.len() - 1); s }
pub fn dedup1(mut v: Vec<String>) -> Vec<String> { let mut i = 0; let n = v.len(); while i < n { if v[..i].contains(&v[i]) { v.remove(i); } else { i += 1; } } v }
pub fn tryint(x: u64) -> u32 { u32::try_from(x).unwrap() }
pub fn tryint3(x: usize) -> u8 { (x % 300).try_into().unwrap() }
pub fn charsub(c: char) -> u8 { if c.is_ascii() { c as u8 - b'a' } else { 0 } }
pub fn charsub3(b: u8) -> u8 { match b { b'0'..=b'9' => b - b'1', _ => 0 } }
pub fn charsub4(c: char) -> u8 { if c.is_ascii_alphanumeric() { c as u8 - b'A' } else { 0 } }
pub fn takewhile2(s: &str) -> &str { let n = s.chars().take_while(|b| !b.is_whitespace()).count(); &s[..n] }
pub fn tblidx2(i: u8) -> &'static str { ["a", "b", "c", "d"][usize::from(i) % 5] }
pub fn cachelen2(s: &str) -> usize { let v: Vec<&str> = s.split(' ').collect(); let n = v.len(); if n >= 2 { v[n - 3].len() } else { 0 } }
pub fn nested(v: &[Vec<u32>]) -> u32 { let mut m = 0; for i in 0..v.len() { for j in 0..v[0].len() { m = m.max(v[i][j]); } } m }
pub fn cap1(s: &str) -> Vec<u64> { let n: usize = s.parse().unwrap_or(0); Vec::with_capacity(n) }
pub fn cap2(s: &str) -> Vec<u8> { let n: usize = s.parse().unwrap_or(0); vec![0; n] }
pub fn cap3(s: &str) -> usize { let n: usize = s.parse().unwrap_or(0); n + 1 }
pub fn cap4(s: &str) -> u16 { let n: u16 = s.parse().unwrap_or(0); n + 1 }
pub fn lenu8(s: &str) -> u8 { u8::try_from(s.len()).unwrap() }
pub fn enumu8(s: &str) -> u8 { let mut n = 0u8; for _ in s.lines() { n += 1; } n }
pub fn recur(s: &str) -> usize { s.split_once('(').map(|x| x.1.rfind(')').map(|i| x.1[i + 2..].len()).unwrap_or(0)).unwrap_or(0) }
pub fn refcell2(s: &str) -> usize { let c = std::cell::RefCell::new(String::new()); let b = c.borrow(); c.borrow_mut().push('x'); b.len() }
pub fn utf8(v: Vec<u8>) -> String { String::from_utf8(v).unwrap() }
pub fn addr(s: &str) -> std::net::IpAddr { s.parse().unwrap() }
pub fn dur(a: u64) -> std::time::Duration { std::time::Duration::from_secs(a) * 1000 }
pub fn mapidx1(m: &mut std::collections::HashMap<u32, u32>, k: u32) -> u32 { if m.contains_key(&k) { m.insert(k, 1); } m[&k] }
pub fn mapidx2(m: &std::collections::HashMap<String, u32>, k: &String, j: &String) -> u32 { if m.contains_key(k) { m[j] } else { 0 } }
pub fn mapidx3(m: &mut std::collections::HashMap<u32, u32>, k: u32) -> u32 { let old = m.clone(); m.insert(k, 1); old[&k] }
pub fn mapidx4(m: &mut std::collections::HashMap<u32, u32>, k: u32) -> u32 { m.insert(k, 1); m.remove(&k); m[&k] }
pub fn mapidx5(m: &mut std::collections::HashMap<u32, u32>, k: u32) -> u32 { if !m.contains_key(&k) { m.insert(k, 1); } m.clear(); m[&k] }
pub fn mapidx6(m: &mut std::collections::HashMap<u32, u32>, k: u32) -> u32 { if !m.contains_key(&k) { m.insert(k, 1); } m.retain(|_, v| *v > 3); m[&k] }
pub fn memtake1(v: &mut Vec<String>) -> usize { if v.is_empty() { return 0; } let w = std::mem::take(v); v[0].len() + w[0].len() }
pub fn memrep1(v: &mut Vec<String>) -> String { let _w = std::mem::replace(v, vec![String::new()]); v[1].clone() }
pub fn extopt1(a: Option<u32>) -> u32 { let mut v = vec![1u32, 2]; v.extend(a); v[2] }
}
