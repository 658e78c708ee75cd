#![allow(dead_code, unused, clippy::all)]
//! w, v: generic words; n: any number; every function must return true.
use std::collections::*;
use std::net::*;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq)]
pub enum K { A, B(u32), C(String), D(Vec<u32>) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Copy)]
pub enum E { X, Y, Z }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct St { pub a: u32, pub b: Option<String>, pub c: Vec<u32> }

pub mod t {
use super::*;
pub fn dedup1(w: &str, n: u32) -> bool { let mut v = vec![1, 1, 2, 2, 1]; v.dedup(); v == vec![1, 2, 1] }
pub fn dedup2(w: &str, n: u32) -> bool { let mut v = vec![(1, "a"), (1, "b"), (2, "c")]; v.dedup_by_key(|x| x.0); v.len() == 2 && v[0].1 == "a" }
pub fn dedup3(w: &str, n: u32) -> bool { let mut v = vec![1, 2, 5, 6]; v.dedup_by(|a, b| *a == *b + 1); v == vec![1, 5] }
pub fn dedup4(w: &str, n: u32) -> bool { let mut v = vec![w.to_string(), w.to_string(), "a".to_string()]; v.dedup(); v.len() == 2 }
pub fn retain1(w: &str, n: u32) -> bool { let mut v = vec![1, 2, 3]; v.retain(|x| *x != 2); v == [1, 3] }
pub fn retain2(w: &str, n: u32) -> bool { let mut v = vec![1, 2, 3]; v.retain_mut(|x| { *x += 1; *x != 2 }); v == [3, 4] }
pub fn sort1(w: &str, n: u32) -> bool { let mut v = vec![3, 1, 2]; v.sort(); v == [1, 2, 3] }
pub fn sort2(w: &str, n: u32) -> bool { let mut v = vec!["b", "a"]; v.sort_unstable(); v == ["a", "b"] }
pub fn sort3(w: &str, n: u32) -> bool { let mut v = vec![3, 1, 2]; v.sort_by(|a, b| b.cmp(a)); v == [3, 2, 1] }
pub fn sort4(w: &str, n: u32) -> bool { let mut v = vec![(3, 1), (1, 2)]; v.sort_by_key(|a| a.0); v[0].1 == 2 }
pub fn disc1(w: &str, n: u32) -> bool { std::mem::discriminant(&K::B(1)) == std::mem::discriminant(&K::B(n)) }
pub fn disc2(w: &str, n: u32) -> bool { std::mem::discriminant(&K::A) != std::mem::discriminant(&K::B(n)) }
pub fn memtake(w: &str, n: u32) -> bool { let mut v = vec![1]; let u = std::mem::take(&mut v); v.is_empty() && u.len() == 1 }
pub fn memtake2(w: &str, n: u32) -> bool { let mut v = String::from("x"); let u = std::mem::take(&mut v); v.is_empty() && u == "x" }
pub fn memtake3(w: &str, n: u32) -> bool { let mut v = Some(n); let u = std::mem::take(&mut v); v.is_none() && u == Some(n) }
pub fn memrepl(w: &str, n: u32) -> bool { let mut v = 5; let u = std::mem::replace(&mut v, 6); v == 6 && u == 5 }
pub fn memswap(w: &str, n: u32) -> bool { let mut v = 5; let mut u = 6; std::mem::swap(&mut v, &mut u); v == 6 && u == 5 }
pub fn optake(w: &str, n: u32) -> bool { let mut v = Some(5); let u = v.take(); v.is_none() && u == Some(5) }
pub fn oprepl(w: &str, n: u32) -> bool { let mut v = Some(5); let u = v.replace(6); v == Some(6) && u == Some(5) }
pub fn opins(w: &str, n: u32) -> bool { let mut v = None; *v.get_or_insert(3) += 1; v == Some(4) }
pub fn opins2(w: &str, n: u32) -> bool { let mut v: Option<Vec<u32>> = None; v.get_or_insert_with(Vec::new).push(1); v.as_ref().map(|x| x.len()) == Some(1) }
pub fn opins3(w: &str, n: u32) -> bool { let mut v: Option<u32> = None; v.insert(4); v == Some(4) }
pub fn opzip(w: &str, n: u32) -> bool { Some(1).zip(Some(n)).map(|x| x.0) == Some(1) && Some(1).xor(None) == Some(1) }
pub fn opand(w: &str, n: u32) -> bool { Some(1).is_some_and(|x| x == 1) && Some(2).filter(|x| *x > 3).is_none() && None.or(Some(1)) == Some(1) }
pub fn opand2(w: &str, n: u32) -> bool { let o: Option<&str> = Some(w); o.is_none_or(|x| !x.is_empty()) && o.map_or(false, |x| x == w) && o.ok_or("e").is_ok() }
pub fn opunw(w: &str, n: u32) -> bool { None.unwrap_or_else(|| 3) == 3 && None::<u32>.unwrap_or_default() == 0 && Some(1).into_iter().chain(None).count() == 1 }
pub fn opcopied(w: &str, n: u32) -> bool { let v = vec![1]; v.first().copied() == Some(1) && v.get(0).cloned() == Some(1) && v.get(1).is_none() }
pub fn opderef(w: &str, n: u32) -> bool { let v = Some(w.to_string()); v.as_deref() == Some(w) && v.as_ref().map(String::as_str) == Some(w) }
pub fn optransp(w: &str, n: u32) -> bool { let v: Option<Result<u32, ()>> = Some(Ok(1)); v.transpose() == Ok(Some(1)) }
pub fn resmap(w: &str, n: u32) -> bool { let v: Result<u32, String> = "12".parse::<u32>().map_err(|e| e.to_string()); v.ok() == Some(12) }
pub fn resor(w: &str, n: u32) -> bool { let v = "x".parse::<u32>().unwrap_or(7); let z = "x".parse::<u32>().or_else(|_| "3".parse::<u32>()); v == 7 && z == Ok(3) }
pub fn ordmax(w: &str, n: u32) -> bool { n.max(7) >= 7 && n.min(7) <= 7 && std::cmp::max(3, 4) == 4 && std::cmp::min(n, 3) <= 3 }
pub fn ordclamp(w: &str, n: u32) -> bool { let c = n.clamp(2, 9); c >= 2 && c <= 9 && 5u32.clamp(1, 3) == 3 }
pub fn ordmax2(w: &str, n: u32) -> bool { let m = n.max(100); (n > 100) == (m != 100 ) || m == n }
pub fn sat(w: &str, n: u32) -> bool { 3u8.saturating_sub(5) == 0 && 250u8.saturating_add(10) == 255 && 100u8.saturating_mul(3) == 255 }
pub fn wrap(w: &str, n: u32) -> bool { 250u8.wrapping_add(10) == 4 && 3u8.wrapping_sub(5) == 254 && 100u8.wrapping_mul(3) == 44 }
pub fn chk(w: &str, n: u32) -> bool { 250u8.checked_add(10).is_none() && 3u8.checked_sub(1) == Some(2) && 4u32.checked_div(2) == Some(2) && 4u32.checked_mul(2) == Some(8) && 4u32.checked_rem(0).is_none() }
pub fn ovf(w: &str, n: u32) -> bool { 250u8.overflowing_add(10) == (4, true) }
pub fn pow(w: &str, n: u32) -> bool { 2u32.pow(5) == 32 && 2u32.checked_pow(40).is_none() && 8u32.is_power_of_two() && 3i32.abs() == 3 && (-3i32).abs() == 3 && 3u32.abs_diff(5) == 2 }
pub fn bits(w: &str, n: u32) -> bool { 8u32.leading_zeros() == 28 && 8u32.trailing_zeros() == 3 && 7u32.count_ones() == 3 && (-7i32).rem_euclid(3) == 2 && 7u32.div_ceil(2) == 4 }
pub fn tryinto(w: &str, n: u32) -> bool { u8::try_from(300u32).is_err() && u8::try_from(30u32) == Ok(30) && { let x: Result<u16, _> = 70000u64.try_into(); x.is_err() } && u64::from(3u32) == 3 }
pub fn tryn(w: &str, n: u32) -> bool { match u8::try_from(n) { Ok(x) => u32::from(x) == n && n < 256, Err(_) => n > 255 } }
pub fn cast(w: &str, n: u32) -> bool { 300u32 as u8 == 44 && 3u8 as char == '\u{3}' && -1i32 as u32 == u32::MAX && 3.7f32 as u32 == 3 && n as u64 == u64::from(n) }
pub fn itersum(w: &str, n: u32) -> bool { [1u32, 2, 3].iter().sum::<u32>() == 6 && [1u32, 2, 3].iter().product::<u32>() == 6 && vec![1usize, 2].into_iter().sum::<usize>() == 3 }
pub fn itermax(w: &str, n: u32) -> bool { [1, 4, 3].iter().max() == Some(&4) && [1, 4, 3].iter().copied().min() == Some(1) }
pub fn itermaxby(w: &str, n: u32) -> bool { [(1, 'a'), (4, 'b')].iter().max_by_key(|x| x.0).map(|x| x.1) == Some('b') && [(1, 'a'), (4, 'b')].iter().min_by_key(|x| x.0).map(|x| x.1) == Some('a') }
pub fn iterpart(w: &str, n: u32) -> bool { let (a, b): (Vec<u32>, Vec<u32>) = vec![1, 2, 3].into_iter().partition(|x| *x > 1); a.len() == 2 && b == [1] }
pub fn iterunzip(w: &str, n: u32) -> bool { let (a, b): (Vec<u32>, Vec<&str>) = vec![(1, "a"), (2, "b")].into_iter().unzip(); a == [1, 2] && b[1] == "b" }
pub fn iterstep(w: &str, n: u32) -> bool { (0..6).step_by(2).collect::<Vec<_>>() == [0, 2, 4] && (0..3).rev().collect::<Vec<_>>() == [2, 1, 0] }
pub fn iterlast(w: &str, n: u32) -> bool { let v = [1, 2, 3]; v.iter().rposition(|x| *x < 3) == Some(1) && v.iter().rev().find(|x| **x < 3) == Some(&2) && v.iter().nth(1) == Some(&2) && v.iter().last() == Some(&3) }
pub fn itertryfold(w: &str, n: u32) -> bool { let r = [1u32, 2].iter().try_fold(0u32, |a, x| a.checked_add(*x)); r == Some(3) }
pub fn itertryfor(w: &str, n: u32) -> bool { let r: Result<(), u32> = [1u32, 2].iter().try_for_each(|x| if *x == 2 { Err(*x) } else { Ok(()) }); r == Err(2) }
pub fn iterreduce(w: &str, n: u32) -> bool { vec![1, 2, 3].into_iter().reduce(|a, b| a + b) == Some(6) }
pub fn iterinspect(w: &str, n: u32) -> bool { let mut k = 0; let c = [1, 2].iter().inspect(|x| k += **x).count(); c == 2 && k == 3 }
pub fn iterscan(w: &str, n: u32) -> bool { [1, 2, 3].iter().scan(0, |a, x| { *a += x; Some(*a) }).collect::<Vec<_>>() == [1, 3, 6] }
pub fn iterwin(w: &str, n: u32) -> bool { let v = [1, 2, 3]; v.windows(2).all(|p| p[0] < p[1]) && v.chunks(2).map(|c| c.len()).collect::<Vec<_>>() == [2, 1] }
pub fn itereq(w: &str, n: u32) -> bool { [1, 2].iter().eq([1, 2].iter()) && vec![1, 2].iter().ne([1, 3].iter()) }
pub fn itercycle(w: &str, n: u32) -> bool { [1, 2].iter().cycle().take(3).count() == 3 && std::iter::repeat(1).take(3).collect::<Vec<_>>() == [1, 1, 1] }
pub fn iteronce(w: &str, n: u32) -> bool { std::iter::once(1).chain([2, 3]).collect::<Vec<u32>>() == [1, 2, 3] && std::iter::empty::<u32>().next().is_none() }
pub fn itersucc(w: &str, n: u32) -> bool { std::iter::successors(Some(1u32), |x| if *x < 4 { Some(x * 2) } else { None }).collect::<Vec<_>>() == [1, 2, 4] }
pub fn iterfromfn(w: &str, n: u32) -> bool { let mut c = 0; std::iter::from_fn(|| { c += 1; if c < 3 { Some(c) } else { None } }).collect::<Vec<_>>() == [1, 2] }
pub fn iterflat(w: &str, n: u32) -> bool { vec![Some(1), None, Some(2)].into_iter().flatten().collect::<Vec<_>>() == [1, 2] && vec![vec![1], vec![2, 3]].concat() == [1, 2, 3] }
pub fn iterflat2(w: &str, n: u32) -> bool { vec![Ok(1), Err("x")].into_iter().flatten().count() == 1 && vec![1, 2].iter().flat_map(|x| vec![*x; 2]).count() == 4 }
pub fn itercmp(w: &str, n: u32) -> bool { 1.cmp(&2) == std::cmp::Ordering::Less && 1.cmp(&2).is_lt() && 2.cmp(&1).reverse().is_lt() && (1, 2).cmp(&(1, 3)).is_lt() && "a" < "b" }
pub fn iterpeek(w: &str, n: u32) -> bool { let mut i = "ab".chars().peekable(); i.next_if_eq(&'a').is_some() && i.peek() == Some(&'b') && i.next_if(|c| *c == 'x').is_none() }
pub fn itermapwhile(w: &str, n: u32) -> bool { ["1", "x", "2"].iter().map_while(|s| s.parse::<u32>().ok()).count() == 1 && [1, 2, 3].iter().take_while(|x| **x < 3).count() == 2 && [1, 2, 3].iter().skip_while(|x| **x < 3).count() == 1 }
pub fn iterloop(w: &str, n: u32) -> bool { let mut k = 0; let mut i = [1, 2, 3].iter(); while let Some(x) = i.next() { if *x == 2 { continue; } k += x; } k == 4 }
pub fn iterloop2(w: &str, n: u32) -> bool { let v = vec!["a", "b"]; let mut out = String::new(); for i in 0..v.len() { if i > 0 { out.push(','); } out += v[i]; } out == "a,b" }
pub fn itermut(w: &str, n: u32) -> bool { let mut v = vec![1, 2]; for x in v.iter_mut() { *x *= 2; } for x in &mut v { *x += 1; } v == [3, 5] }
pub fn itermut2(w: &str, n: u32) -> bool { let mut v = vec![St::default(), St::default()]; v.iter_mut().filter(|x| x.a == 0).for_each(|x| x.a = 3); v[1].a == 3 }
pub fn itermut3(w: &str, n: u32) -> bool { let mut v = vec![St::default(), St::default()]; if let Some(x) = v.iter_mut().rev().find(|x| x.a == 0) { x.a = 4; } v[1].a == 4 && v[0].a == 0 }
pub fn vecfirst(w: &str, n: u32) -> bool { let mut v = vec![1, 2]; *v.first_mut().unwrap() = 5; *v.last_mut().unwrap() = 6; if let Some(x) = v.get_mut(1) { *x += 1; } v == [5, 7] }
pub fn vecswap(w: &str, n: u32) -> bool { let mut v = vec![1, 2, 3]; v.swap(0, 2); v.rotate_left(1); v == [2, 1, 3] }
pub fn vecresize(w: &str, n: u32) -> bool { let mut v = vec![1]; v.resize(3, 0); v.truncate(2); v.insert(0, 9); v == [9, 1, 0] }
pub fn vecsplit(w: &str, n: u32) -> bool { let v = [1, 2, 3]; let (a, b) = v.split_at(1); a == [1] && b == [2, 3] && v.split_first().map(|(x, y)| *x + y.len()) == Some(3) && v.split_last().map(|x| *x.0) == Some(3) }
pub fn vecsplice(w: &str, n: u32) -> bool { let mut v = vec![1, 2, 3]; let d: Vec<_> = v.drain(..1).collect(); let o = v.split_off(1); d == [1] && o == [3] && v == [2] }
pub fn vecpat(w: &str, n: u32) -> bool { let v = vec![1, 2, 3]; match v.as_slice() { [a, .., c] => *a == 1 && *c == 3, _ => false } }
pub fn vecpat2(w: &str, n: u32) -> bool { let v: Vec<&str> = "a/b/c".split('/').collect(); match v[..] { [] => false, [a] => false, [a, ref rest @ ..] => rest.len() == 2 && a == "a" } }
pub fn vecpat3(w: &str, n: u32) -> bool { let v: Vec<&str> = "a b".split_whitespace().collect(); if let [a, b] = v[..] { a == "a" && b == "b" } else { false } }
pub fn veccont(w: &str, n: u32) -> bool { let v = vec![1, 2]; v.contains(&2) && v.starts_with(&[1]) && v.ends_with(&[2]) && v.iter().any(|x| *x == 2) && v.binary_search(&2).is_ok() }
pub fn vecstr(w: &str, n: u32) -> bool { let v = vec![w.to_string(), "b".to_string()]; v.contains(&w.to_string()) && v.join("-") == format!("{}-b", w) && v.concat() == format!("{}b", w) && v.iter().any(|x| x == w) }
pub fn veclastm(w: &str, n: u32) -> bool { let mut v = vec![St::default()]; let l = v.len(); v[l - 1].c.push(3); v.last_mut().unwrap().b = Some(w.into()); v[0].c == [3] && v[0].b.as_deref() == Some(w) }
pub fn vecrepeat(w: &str, n: u32) -> bool { vec![1; 3] == [1].repeat(3) && "ab".repeat(2) == "abab" && vec![0u8; 2].len() == 2 }
pub fn vecfill(w: &str, n: u32) -> bool { let mut a = [1, 2]; a.fill(0); a == [0, 0] && { let mut v = Vec::with_capacity(3); v.extend([1, 2].iter()); v.extend_from_slice(&[3]); v.len() == 3 } }
pub fn vecrev(w: &str, n: u32) -> bool { let mut v = vec![1, 2]; v.reverse(); v.clear(); v.push(1); let x = v.pop(); x == Some(1) && v.pop().is_none() }
pub fn arrmap(w: &str, n: u32) -> bool { [1, 2].map(|x| x + 1) == [2, 3] && std::array::from_fn::<usize, 2, _>(|i| i) == [0, 1] }
pub fn strrep(w: &str, n: u32) -> bool { "a-b-c".replace('-', "") == "abc" && "a-b-c".replacen('-', "+", 1) == "a+b-c" && "aXb".replace("X", "") == "ab" && format!("{};", w).replace(';', ",") == format!("{},", w) }
pub fn strmatches(w: &str, n: u32) -> bool { "a,b,c".matches(',').count() == 2 && "a,b".match_indices(',').next() == Some((1, ",")) && w.matches(',').count() == 0 }
pub fn strget(w: &str, n: u32) -> bool { "abc".get(0..1) == Some("a") && "abc".get(5..).is_none() && "abc".is_char_boundary(1) && &"abc"[1..] == "bc" }
pub fn strbytes(w: &str, n: u32) -> bool { "abc".as_bytes()[1] == b'b' && "abc".bytes().all(|b| b.is_ascii_alphabetic()) && "a".bytes().next() == Some(97) && b"ab".len() == 2 && "abc".as_bytes().first() == Some(&b'a') }
pub fn strchars(w: &str, n: u32) -> bool { "abc".chars().rev().collect::<String>() == "cba" && "abc".chars().nth(1) == Some('b') && "a".chars().next().map(|c| c.is_alphabetic()) == Some(true) && "abc".chars().count() == 3 && "abc".chars().last() == Some('c') && "abc".chars().next_back() == Some('c') }
pub fn strchars2(w: &str, n: u32) -> bool { w.chars().all(|c| c.is_alphanumeric()) && !w.chars().any(|c| c == ' ') && !w.chars().any(char::is_whitespace) && w.chars().all(|c| c.is_ascii() && !c.is_control()) }
pub fn chardig(w: &str, n: u32) -> bool { 'f'.to_digit(16) == Some(15) && 'g'.to_digit(16).is_none() && '3'.is_digit(10) && char::from_digit(3, 10) == Some('3') && 'A'.to_ascii_lowercase() == 'a' && 'a'.eq_ignore_ascii_case(&'A') && 'a'.is_ascii_lowercase() && 'A'.is_uppercase() && 'a' as u32 == 97 && char::from(65u8) == 'A' && ('a'..='z').contains(&'c') }
pub fn bytedig(w: &str, n: u32) -> bool { b'3'.is_ascii_digit() && b'A'.to_ascii_lowercase() == b'a' && b'a'.is_ascii_hexdigit() && (b'3' - b'0') == 3 && b'a'.is_ascii_alphanumeric() && b' '.is_ascii_whitespace() }
pub fn stropts(w: &str, n: u32) -> bool { "a=b=c".split_once('=') == Some(("a", "b=c")) && "a=b=c".rsplit_once('=') == Some(("a=b", "c")) && "a".split_once('=').is_none() && "abc".strip_prefix("a") == Some("bc") && "abc".strip_suffix('c') == Some("ab") }
pub fn strsplit(w: &str, n: u32) -> bool { "a b  c".split(' ').count() == 4 && "a;b".split(|c| c == ';' || c == ',').count() == 2 && "a1b2".split(char::is_numeric).count() == 3 && "a,b;c".split(&[',', ';'][..]).count() == 3 && "a,b;c".split([',', ';']).count() == 3 }
pub fn strsplit2(w: &str, n: u32) -> bool { "a,b,".split_terminator(',').count() == 2 && "a,b".rsplit(',').next() == Some("b") && "a,b,c".splitn(2, ',').nth(1) == Some("b,c") && "a,b,c".rsplitn(2, ',').next() == Some("c") && "a,b,c".split_inclusive(',').next() == Some("a,") && "a, b".split(", ").last() == Some("b") }
pub fn strtrim(w: &str, n: u32) -> bool { " a ".trim() == "a" && "xax".trim_matches('x') == "a" && "a\r\n".trim_end_matches(&['\r', '\n'][..]) == "a" && "  a".trim_start() == "a" && "11a".trim_start_matches(char::is_numeric) == "a" && "a;".trim_end_matches(';') == "a" && "\"a\"".trim_matches('"') == "a" && "aab".trim_start_matches("a") == "b" && " a ".trim_end_matches(|c: char| c.is_whitespace()) == " a" }
pub fn strcase(w: &str, n: u32) -> bool { "Ab".to_lowercase() == "ab" && "Ab".to_ascii_uppercase() == "AB" && "Ab".eq_ignore_ascii_case("aB") && { let mut s = "Ab".to_string(); s.make_ascii_lowercase(); s == "ab" } }
pub fn strmut(w: &str, n: u32) -> bool { let mut s = String::from("abc"); s.push('d'); s.insert(0, 'x'); s.insert_str(0, "yy"); s.truncate(5); let p = s.pop(); let r = s.remove(0); s == "yxa" && p == Some('b') && r == 'y' }
pub fn strmut2(w: &str, n: u32) -> bool { let mut s = String::from("a b c"); s.retain(|c| c != ' '); s.extend(["d", "e"]); s += "f"; let t = s.split_off(3); s == "abc" && t == "def" && { s.clear(); s.is_empty() } && { let d: String = String::from("xyz").drain(..1).collect(); d == "x" } }
pub fn strfind(w: &str, n: u32) -> bool { "abc".find('b') == Some(1) && "abcb".rfind("b") == Some(3) && "abc".find(char::is_whitespace).is_none() && "ab".find(|c: char| c == 'b') == Some(1) && "a b".contains(char::is_whitespace) && "abc".contains("bc") && "abc".starts_with('a') && "abc".ends_with("bc") && "1a".starts_with(|c: char| c.is_ascii_digit()) && "abc".starts_with(&['a', 'b'][..]) }
pub fn strcharidx(w: &str, n: u32) -> bool { "ab".char_indices().map(|(i, c)| i).last() == Some(1) && "ab".char_indices().find(|(_, c)| *c == 'b').map(|x| x.0) == Some(1) }
pub fn strconv(w: &str, n: u32) -> bool { String::from_utf8(vec![97, 98]) == Ok("ab".to_string()) && String::from_utf8_lossy(b"ab") == "ab" && std::str::from_utf8(b"ab") == Ok("ab") && "ab".to_owned().into_bytes() == vec![97, 98] && "ab".chars().collect::<Vec<char>>().iter().collect::<String>() == "ab" && 'a'.to_string() == "a" && 'a'.len_utf8() == 1 }
pub fn strcmp(w: &str, n: u32) -> bool { "a" < "b" && "b".cmp("a").is_gt() && "a" != "b" && String::from("a") == "a" && "a".to_string() == String::from("a") && w == w.to_string() && w.len() > 0 && !w.is_empty() }
pub fn fmt1(w: &str, n: u32) -> bool { format!("{:02X}", 10) == "0A" && format!("{:>4}", 3) == "   3" && format!("{:04}", 7) == "0007" && format!("{n}", n = 3) == "3" && format!("{}{}", 'a', true) == "atrue" && format!("{:x}", 255u8) == "ff" && format!("{0}-{0}", 1) == "1-1" }
pub fn fmt2(w: &str, n: u32) -> bool { use std::fmt::Write; let mut s = String::new(); write!(s, "{}:{}", w, n).unwrap(); s.write_str(";").unwrap(); s.write_char('x').unwrap(); s == format!("{w}:{n};x") }
pub fn fmt3(w: &str, n: u32) -> bool { format!("{:?}", "a") == "\"a\"" && format!("{:<3}|", "a") == "a  |" && format!("{:^3}", "a") == " a " && format!("{:+}", 3) == "+3" && format!("{:#x}", 255) == "0xff" && format!("{:08b}", 5) == "00000101" && format!("{:.1}", 1.25f32) == "1.2" }
pub fn parse1(w: &str, n: u32) -> bool { "12".parse::<u8>() == Ok(12) && "300".parse::<u8>().is_err() && u16::from_str("5") == Ok(5) && u8::from_str_radix("fF", 16) == Ok(255) && "+5".parse::<u32>() == Ok(5) && "-5".parse::<i32>() == Ok(-5) && "true".parse::<bool>() == Ok(true) && "x".parse::<bool>().is_err() && "a".parse::<char>() == Ok('a') }
pub fn parse2(w: &str, n: u32) -> bool { "1.5".parse::<f32>() == Ok(1.5) && "x".parse::<f64>().is_err() && w.parse::<u32>().is_err() && n.to_string().parse::<u32>() == Ok(n) && n.to_string().parse::<u64>() == Ok(n as u64) && w.parse::<String>().is_ok() }
pub fn hset(w: &str, n: u32) -> bool { let mut h = HashSet::new(); h.insert("a") && !h.insert("a") && h.insert(w) && h.contains(w) && h.len() == 2 && h.remove("a") && !h.is_empty() && !h.contains("a") }
pub fn hset2(w: &str, n: u32) -> bool { let h: HashSet<u32> = [1, 2, 1].into_iter().collect(); h.len() == 2 && h.contains(&1) && !h.contains(&3) && h.iter().all(|x| *x > 0) && h.is_superset(&[1].into_iter().collect()) }
pub fn bset(w: &str, n: u32) -> bool { let mut h = BTreeSet::new(); h.insert(2); h.insert(1); h.insert(2); h.iter().copied().collect::<Vec<u32>>() == [1, 2] && h.first() == Some(&1) && h.into_iter().count() == 2 }
pub fn hmap(w: &str, n: u32) -> bool { let mut h = HashMap::new(); h.insert("a", 1).is_none() && h.insert("a", 2) == Some(1) && h.get("a") == Some(&2) && h.contains_key("a") && h.len() == 1 && h["a"] == 2 && h.get(w).is_none() && h.remove("a") == Some(2) && h.is_empty() }
pub fn hmap2(w: &str, n: u32) -> bool { let mut h: HashMap<String, Vec<u32>> = HashMap::new(); h.entry("a".into()).or_default().push(1); h.entry("a".into()).or_insert_with(Vec::new).push(2); *h.entry("b".into()).or_insert(vec![]) = vec![7]; h["a"] == [1, 2] && h.values().map(|v| v.len()).sum::<usize>() == 3 && h.keys().any(|k| k == "b") && h.iter().any(|(k, v)| k == "b" && v == &[7]) && h.get_mut("a").map(|v| { v.push(3); v.len() }) == Some(3) }
pub fn bmap(w: &str, n: u32) -> bool { let mut h = BTreeMap::new(); h.insert(2, "b"); h.insert(1, "a"); h.values().copied().collect::<String>() == "ab" && h.first_key_value() == Some((&1, &"a")) && h.into_iter().map(|x| x.0).collect::<Vec<_>>() == [1, 2] }
pub fn hmap3(w: &str, n: u32) -> bool { let h: HashMap<&str, u32> = vec![("a", 1), (w, 2)].into_iter().collect(); h.len() == 2 && h[w] == 2 && { let mut k: Vec<&str> = h.keys().copied().filter(|x| *x == "a").collect(); k == ["a"] } }
pub fn hmap4(w: &str, n: u32) -> bool { let mut h: HashMap<u32, u32> = HashMap::new(); for x in [1, 2, 1] { *h.entry(x).or_insert(0) += 1; h.entry(x).and_modify(|v| *v += 1).or_insert(5); } h[&1] == 4 && h.get(&2).copied().unwrap_or(0) == 2 }
pub fn vdq(w: &str, n: u32) -> bool { let mut d = VecDeque::new(); d.push_back(1); d.push_front(0); d.push_back(2); d.pop_front() == Some(0) && d.len() == 2 && d.pop_back() == Some(2) && d.iter().count() == 1 && d.front() == Some(&1) }
pub fn ip1(w: &str, n: u32) -> bool { let a: Ipv4Addr = "10.0.0.1".parse().unwrap(); a.octets()[0] == 10 && a == Ipv4Addr::new(10, 0, 0, 1) && !a.is_unspecified() && Ipv4Addr::UNSPECIFIED.is_unspecified() && a.to_string() == "10.0.0.1" && a.is_private() && !a.is_multicast() && !a.is_loopback() }
pub fn ip2(w: &str, n: u32) -> bool { let a: IpAddr = "::1".parse().unwrap(); a.is_ipv6() && a.is_loopback() && !a.is_unspecified() && a == IpAddr::V6(Ipv6Addr::LOCALHOST) && a.to_string() == "::1" }
pub fn ip3(w: &str, n: u32) -> bool { let a: IpAddr = "1.2.3.4".parse().unwrap(); match a { IpAddr::V4(x) => x.to_ipv6_mapped().to_string() == "::ffff:1.2.3.4" && u32::from(x) == 0x01020304, _ => false } }
pub fn ip4(w: &str, n: u32) -> bool { let a: Ipv6Addr = "::ffff:1.2.3.4".parse().unwrap(); a.to_ipv4_mapped() == Some(Ipv4Addr::new(1, 2, 3, 4)) && IpAddr::V6(a).to_canonical().is_ipv4() && a.segments()[7] == 0x304 }
pub fn flo(w: &str, n: u32) -> bool { 1.5f32.max(2.0) == 2.0 && 1.5f64.floor() == 1.0 && (1.5f64).abs() == 1.5 && 2.5f32.round() == 3.0 && 1.0f32.min(0.5) == 0.5 && 1.5f32 + 1.0 == 2.5 && 1.5f32.trunc() as u32 == 1 && 1.5f64.fract() == 0.5 && (3.0f64 / 2.0) == 1.5 && 1.0f64.clamp(0.0, 0.5) == 0.5 && f64::from(1.5f32) == 1.5 }
pub fn refcell(w: &str, n: u32) -> bool { let c = std::cell::Cell::new(1); c.set(2); let r = std::cell::RefCell::new(vec![1]); r.borrow_mut().push(2); c.get() == 2 && r.borrow().len() == 2 }
pub fn rc1(w: &str, n: u32) -> bool { let r = std::rc::Rc::new(5); let q = r.clone(); *q == 5 && { let b = Box::new(6); *b == 6 } && { let c: std::borrow::Cow<str> = "a".into(); c == "a" && c.into_owned() == "a" } }
pub fn clos(w: &str, n: u32) -> bool { let f: &dyn Fn(u32) -> u32 = &|x| x + 1; let g: fn(u32) -> u32 = |x| x * 2; f(1) == 2 && g(2) == 4 && [f as &dyn Fn(u32) -> u32].len() == 1 && { let b: Box<dyn Fn(u32) -> u32> = Box::new(move |x| x); b(3) == 3 } }
pub fn tuple(w: &str, n: u32) -> bool { let (a, b) = (1, w); matches!((a, b), (1, _)) && (1, "a") == (1, "a") && (1, 2) < (1, 3) && Some((1, 2)) == Some((1, 2)) }
pub fn structs(w: &str, n: u32) -> bool { let s = St { a: n, ..Default::default() }; let t = St { b: Some(w.into()), ..s.clone() }; s != t && t.a == n && t.b.as_deref() == Some(w) && t.c.is_empty() }
pub fn enums(w: &str, n: u32) -> bool { let k = K::D(vec![1]); matches!(k, K::D(ref v) if v.len() == 1) && k != K::A && K::C(w.into()) == K::C(w.to_string()) && E::X < E::Y && E::Z as u32 == 2 && E::X.max(E::Z) == E::Z }
pub fn enumsv(w: &str, n: u32) -> bool { let v = vec![K::A, K::B(1), K::C("x".into())]; v.iter().filter(|k| matches!(k, K::B(_))).count() == 1 && v.contains(&K::A) && v.iter().position(|k| *k == K::B(1)) == Some(1) && v.iter().find_map(|k| if let K::C(s) = k { Some(s.as_str()) } else { None }) == Some("x") }
pub fn labelled(w: &str, n: u32) -> bool { let mut k = 0; 'o: for i in 0..3 { for j in 0..3 { if j == 2 { continue 'o; } if i == 2 { break 'o; } k += 1; } } k == 4 }
pub fn whilel(w: &str, n: u32) -> bool { let mut i = 0; let r = loop { i += 1; if i == 5 { break i * 2; } }; while i > 0 { i -= 1; } r == 10 && i == 0 }
pub fn tryop(w: &str, n: u32) -> bool { fn f(s: &str) -> Option<u32> { let x: u32 = s.parse().ok()?; Some(x + 1) } fn g(s: &str) -> Result<u32, Box<dyn std::error::Error>> { Ok(s.parse::<u32>()? + 1) } f("1") == Some(2) && f("x").is_none() && g("1").is_ok() && g("x").is_err() }
pub fn letelse(w: &str, n: u32) -> bool { let Some((a, b)) = "k=v".split_once('=') else { return false }; let Ok(x) = "3".parse::<u8>() else { return false }; a == "k" && b == "v" && x == 3 }
pub fn numw(w: &str, n: u32) -> bool { let s = format!("{}/{}", n, w); let mut p = s.split('/'); p.next().unwrap().parse::<u32>() == Ok(n) && p.next() == Some(w) && p.next().is_none() }
pub fn nrange(w: &str, n: u32) -> bool { (match n { 0 => true, 1..=9 => n < 10, _ => n >= 10 }) && (if (5..10).contains(&n) { n >= 5 && n < 10 } else { n < 5 || n >= 10 }) }
pub fn narith(w: &str, n: u32) -> bool { let x = u64::from(n) + 1; x > u64::from(n) && x - 1 == n as u64 && (n & 0xffff_ffff) == n && (n as u16 as u32 == n) == (n < 65536) }
pub fn nwrap(w: &str, n: u32) -> bool { n.wrapping_add(0) == n && n.saturating_add(1) >= 1 && n.checked_add(0) == Some(n) && (n.saturating_sub(1) < n || n == 0) }
pub fn statics(w: &str, n: u32) -> bool { const T: [(&str, E); 2] = [("x", E::X), ("y", E::Y)]; static N: &[&str] = &["a", "b"]; T.iter().find(|(k, _)| *k == "y").map(|(_, e)| *e) == Some(E::Y) && N.contains(&"a") && N.iter().position(|x| *x == "b") == Some(1) }
pub fn fromtr(w: &str, n: u32) -> bool { struct W(u32); impl From<u32> for W { fn from(x: u32) -> W { W(x) } } let w2: W = n.into(); w2.0 == n && String::from('a') == "a" && Vec::from([1, 2]).len() == 2 && Box::<str>::from("a").len() == 1 && Some(3) == 3.into() }
pub fn sortd(w: &str, n: u32) -> bool { let mut v = vec![K::A, K::B(3), K::B(1)]; v.sort_by_key(|k| match k { K::B(x) => *x, _ => 0 }); v[1] == K::B(1) && v.is_sorted_by_key(|k| match k { K::B(x) => *x, _ => 0 }) }
pub fn chunk(w: &str, n: u32) -> bool { let v = [1, 2, 3, 4]; v.chunks_exact(2).map(|c| c[0] * c[1]).sum::<i32>() == 14 && v.array_windows_alt() }
trait Alt { fn array_windows_alt(&self) -> bool; }
impl Alt for [i32; 4] { fn array_windows_alt(&self) -> bool { self.iter().zip(self.iter().skip(1)).all(|(a, b)| a < b) } }
pub fn maptab(w: &str, n: u32) -> bool { let f = |s: &str| -> Option<E> { Some(match s { "x" => E::X, "y" | "yy" => E::Y, _ => return None }) }; f("x") == Some(E::X) && f("yy") == Some(E::Y) && f(w).is_none() && f(&"X".to_lowercase()) == Some(E::X) }
}

#[cfg(test)]
mod run {
    include!("run.rs");
}
pub mod panics;
