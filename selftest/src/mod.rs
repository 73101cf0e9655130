#![allow(unused)]
use std::collections::*;
use std::rc::Rc;
use std::cell::{Cell,RefCell};
macro_rules! t { ($($n:ident $b:block)*) => { $(pub fn $n() -> bool $b)* #[test] fn all(){ $(assert!($n(), stringify!($n));)* } } }
fn v() -> Vec<i32> { vec![1,2,3,4] }
fn sv() -> Vec<String> { vec!["b".to_string(),"a".to_string(),"c".to_string()] }
fn ok(x: i32) -> Result<i32,String> { Ok(x) }
fn er(x: &str) -> Result<i32,String> { Err(x.to_string()) }
#[derive(Clone,Debug,PartialEq,Eq,Hash,PartialOrd,Ord,Default)]
struct P { a: i32, b: String }
fn ps() -> Vec<P> { vec![P{a:2,b:"x".into()},P{a:1,b:"y".into()},P{a:2,b:"z".into()}] }
t! {
 o_and { Some(1).and(Some(2)) == Some(2) && None::<i32>.and(Some(2)) == None }
 o_zip { Some(1).zip(Some(2)) == Some((1,2)) }
 o_xor { Some(1).xor(None) == Some(1) && Some(1).xor(Some(2)) == None }
 o_flat { Some(Some(1)).flatten() == Some(1) }
 o_goiw { let mut x: Option<i32> = None; *x.get_or_insert_with(|| 3) += 1; x == Some(4) }
 o_goi { let mut x: Option<i32> = None; *x.get_or_insert(3) += 1; x == Some(4) }
 o_isa { Some(3).is_some_and(|x| x > 2) && !None::<i32>.is_some_and(|x| x > 2) }
 o_isno { Some(3).is_none_or(|x| x > 2) && None::<i32>.is_none_or(|x| x > 2) }
 o_take { let mut x = Some(3); let y = x.take(); x.is_none() && y == Some(3) }
 o_takeif { let mut x = Some(3); let y = x.take_if(|v| *v > 2); x.is_none() && y == Some(3) }
 o_repl { let mut x = Some(3); let y = x.replace(5); x == Some(5) && y == Some(3) }
 o_ins { let mut x = None; *x.insert(5) += 1; x == Some(6) }
 o_filter { Some(3).filter(|x| *x > 3) == None }
 o_okor { Some(3).ok_or("e") == Ok(3) && None::<i32>.ok_or_else(|| "e") == Err("e") }
 o_mapor { Some(3).map_or(0, |x| x + 1) == 4 && None::<i32>.map_or_else(|| 7, |x| x + 1) == 7 }
 o_default { None::<i32>.unwrap_or_default() == 0 && None::<String>.unwrap_or_default() == "" }
 o_asmut { let mut x = Some(3); if let Some(y) = x.as_mut() { *y = 4; } x == Some(4) }
 o_asderef { let x = Some("a".to_string()); x.as_deref() == Some("a") }
 o_cmp { Some(1) < Some(2) && None < Some(1) }
 o_transp { Some(ok(1)).transpose() == Ok(Some(1)) }
 o_iter { Some(3).iter().count() == 1 && Some(3).into_iter().chain(None).sum::<i32>() == 3 }
 o_collect { vec![Some(1),Some(2)].into_iter().collect::<Option<Vec<i32>>>() == Some(vec![1,2]) && vec![Some(1),None].into_iter().collect::<Option<Vec<i32>>>() == None }
 o_sum { vec![Some(1),Some(2)].into_iter().sum::<Option<i32>>() == Some(3) }
 r_and { ok(1).and(ok(2)) == Ok(2) && er("a").and(ok(2)) == Err("a".to_string()) }
 r_or { ok(1).or(ok(2)) == Ok::<i32,String>(1) && er("a").or(ok(2)) == Ok::<i32,String>(2) }
 r_iserrand { er("a").is_err_and(|e| e == "a") && ok(1).is_ok_and(|x| x == 1) }
 r_asmut { let mut x = ok(1); if let Ok(y) = x.as_mut() { *y = 2 } x == Ok(2) }
 r_unwraperr { er("a").unwrap_err() == "a" && er("a").err() == Some("a".to_string()) }
 r_inspect { let mut n = 0; let _ = er("a").inspect_err(|_| n += 1); n == 1 }
 r_collect { vec![ok(1),ok(2)].into_iter().collect::<Result<Vec<i32>,String>>() == Ok(vec![1,2]) && vec![ok(1),er("x"),er("y")].into_iter().collect::<Result<Vec<i32>,String>>() == Err("x".to_string()) }
 r_q { fn f() -> Result<i32,String> { let a = ok(1)?; let b = er("q")?; Ok(a+b) } f() == Err("q".to_string()) }
 r_maperr { er("a").map_err(|e| e.len()) == Err(1) }
 r_iter { ok(1).iter().count() == 1 && ok(3).into_iter().sum::<i32>() == 3 }
 r_unwrapor { er("a").unwrap_or(3) == 3 && er("ab").unwrap_or_else(|e| e.len() as i32) == 2 && er("z").unwrap_or_default() == 0 }
 r_flatmap { vec![ok(1),er("x"),ok(3)].into_iter().flatten().collect::<Vec<_>>() == vec![1,3] }
 r_filtermapok { vec![ok(1),er("x"),ok(3)].into_iter().filter_map(Result::ok).collect::<Vec<_>>() == vec![1,3] }
 i_tryfold { v().iter().try_fold(0, |a, x| if *x > 3 { None } else { Some(a + x) }) == None }
 i_tryfold2 { v().iter().try_fold(0, |a, x| -> Result<i32,String> { Ok(a + x) }) == Ok(10) }
 i_tryforeach { let mut s = 0; let r = v().iter().try_for_each(|x| { if *x == 3 { return Err("3"); } s += x; Ok(()) }); r == Err("3") && s == 3 }
 i_product { v().iter().product::<i32>() == 24 }
 i_rposition { v().iter().rposition(|x| *x < 3) == Some(1) }
 i_scan { v().iter().scan(0, |s, x| { *s += x; Some(*s) }).collect::<Vec<_>>() == vec![1,3,6,10] }
 i_cycle { v().iter().cycle().take(6).count() == 6 }
 i_unzip { let (a,b): (Vec<i32>,Vec<i32>) = v().into_iter().map(|x| (x, x*2)).unzip(); a == vec![1,2,3,4] && b == vec![2,4,6,8] }
 i_eq { v().iter().eq(vec![1,2,3,4].iter()) && !v().iter().eq([1].iter()) }
 i_ne { v().iter().ne([1].iter()) }
 i_nextback { let w = v(); let mut i = w.iter(); i.next_back() == Some(&4) && i.next() == Some(&1) && i.len() == 2 }
 i_rfind { v().iter().rfind(|x| **x < 3) == Some(&2) }
 i_rev { v().iter().rev().cloned().collect::<Vec<_>>() == vec![4,3,2,1] }
 i_skip { v().iter().skip(1).step_by(2).copied().collect::<Vec<i32>>() == vec![2,4] }
 i_sw { v().into_iter().skip_while(|x| *x < 3).collect::<Vec<_>>() == vec![3,4] }
 i_tw { v().into_iter().take_while(|x| *x < 3).collect::<Vec<_>>() == vec![1,2] }
 i_mw { v().into_iter().map_while(|x| if x < 3 { Some(x*2) } else { None }).collect::<Vec<_>>() == vec![2,4] }
 i_fm { v().iter().flat_map(|x| vec![*x; 2]).count() == 8 }
 i_findmap { v().iter().find_map(|x| if *x > 2 { Some(x * 10) } else { None }) == Some(30) }
 i_minmax { v().iter().max() == Some(&4) && v().iter().min() == Some(&1) }
 i_mby { ps().iter().max_by_key(|p| p.a).unwrap().b == "z" && ps().iter().min_by_key(|p| p.a).unwrap().b == "y" }
 i_mby2 { ps().iter().max_by(|p, q| p.a.cmp(&q.a)).unwrap().b == "z" && ps().iter().min_by(|p,q| p.a.cmp(&q.a)).unwrap().b == "y" }
 i_partition { let (a,b): (Vec<i32>,Vec<i32>) = v().into_iter().partition(|x| x % 2 == 0); a == vec![2,4] && b == vec![1,3] }
 i_reduce { v().into_iter().reduce(|a,b| a - b) == Some(-8) }
 i_peek { let w = v(); let mut i = w.iter().peekable(); let mut s = 0; while let Some(x) = i.next() { if i.peek().is_none() { s = *x; } } s == 4 }
 i_nextif { let w = v(); let mut i = w.iter().peekable(); i.next_if(|x| **x == 1) == Some(&1) && i.next_if(|x| **x == 1) == None }
 i_last { v().iter().last() == Some(&4) && v().iter().nth(2) == Some(&3) }
 i_enum { v().iter().enumerate().map(|(i,x)| i as i32 * x).sum::<i32>() == 20 }
 i_zip { v().iter().zip(v().iter().skip(1)).all(|(a,b)| a + 1 == *b) }
 i_chain { v().iter().chain([9].iter()).count() == 5 && std::iter::once(1).chain(v()).count() == 5 }
 i_repeat { std::iter::repeat("a").take(3).collect::<String>() == "aaa" && std::iter::repeat_n(1,2).count() == 2 }
 i_succ { std::iter::successors(Some(1), |x| if *x < 20 { Some(x * 3) } else { None }).collect::<Vec<i32>>() == vec![1,3,9,27] }
 i_fromfn { let mut n = 0; std::iter::from_fn(|| { n += 1; if n < 4 { Some(n) } else { None } }).sum::<i32>() == 6 }
 i_empty { std::iter::empty::<i32>().next().is_none() }
 i_inspect { let mut n = 0; let c = v().iter().inspect(|_| n += 1).count(); n == 4 && c == 4 }
 i_byref { let mut i = v().into_iter(); let a: Vec<i32> = i.by_ref().take(2).collect(); a == vec![1,2] && i.next() == Some(3) }
 i_foreach { let mut s = 0; v().iter().for_each(|x| s += x); s == 10 }
 i_range { (0..4).rev().collect::<Vec<_>>() == vec![3,2,1,0] && (1..=3).sum::<i32>() == 6 && (0..10).step_by(5).count() == 2 }
 i_cmp { v().iter().cmp([1,3].iter()) == std::cmp::Ordering::Less }
 i_sorted { v().is_sorted() && v().iter().is_sorted() }
 i_anyall { v().iter().any(|x| *x == 3) && v().iter().all(|x| *x > 0) && v().contains(&3) }
 i_collect_map { let m: HashMap<i32,i32> = v().into_iter().map(|x| (x, x * x)).collect(); m[&3] == 9 && m.len() == 4 }
 i_collect_set { let m: HashSet<i32> = vec![1,1,2].into_iter().collect(); m.len() == 2 && m.contains(&2) }
 i_collect_bm { let m: BTreeMap<i32,i32> = vec![(3,1),(1,2)].into_iter().collect(); m.keys().cloned().collect::<Vec<_>>() == vec![1,3] }
 i_extend { let mut w = v(); w.extend(vec![7]); w.extend_from_slice(&[8]); w.extend([9].iter()); w.len() == 7 && w[6] == 9 }
 i_sumref { v().iter().copied().filter(|x| x % 2 == 1).sum::<i32>() == 4 }
 i_fold { v().iter().fold(String::new(), |a, x| a + &x.to_string()) == "1234" }
 i_rfold { v().iter().rfold(String::new(), |a, x| a + &x.to_string()) == "4321" }
 i_lastm { v().into_iter().rev().skip(1).next() == Some(3) }
 i_size { v().iter().size_hint() == (4, Some(4)) }
 i_dedupvec { let mut w = vec![1,1,2,2,1]; w.dedup(); w == vec![1,2,1] }
 v_dedupk { let mut w = vec![1,3,2,4,1]; w.dedup_by_key(|x| *x % 2); w == vec![1,2,1] }
 v_dedupby { let mut w = vec![1,1,2]; w.dedup_by(|a,b| a == b); w == vec![1,2] }
 v_splitat { let w = v(); let (a,b) = w.split_at(1); a == [1] && b == [2,3,4] }
 v_splitoff { let mut w = v(); let x = w.split_off(1); w == vec![1] && x == vec![2,3,4] }
 v_swap { let mut w = v(); w.swap(0,3); w == vec![4,2,3,1] }
 v_resize { let mut w = v(); w.resize(5, 0); w == vec![1,2,3,4,0] }
 v_chunks { v().chunks(3).map(|c| c.len()).collect::<Vec<_>>() == vec![3,1] }
 v_windows { v().windows(2).all(|w| w[0] < w[1]) }
 v_splitfirst { let w = v(); let (a, r) = w.split_first().unwrap(); *a == 1 && r.len() == 3 }
 v_splitlast { let w = v(); let (a, r) = w.split_last().unwrap(); *a == 4 && r.len() == 3 }
 v_sw { v().starts_with(&[1,2]) && v().ends_with(&[4]) }
 v_retain { let mut w = v(); w.retain(|x| x % 2 == 0); w == vec![2,4] }
 v_retainm { let mut w = v(); w.retain_mut(|x| { *x += 1; *x > 3 }); w == vec![4,5] }
 v_drain { let mut w = v(); let d: Vec<i32> = w.drain(1..3).collect(); w == vec![1,4] && d == vec![2,3] }
 v_drainall { let mut w = v(); let d: Vec<i32> = w.drain(..).collect(); w.is_empty() && d.len() == 4 }
 v_insert { let mut w = v(); w.insert(1, 9); let x = w.remove(0); w == vec![9,2,3,4] && x == 1 }
 v_swaprem { let mut w = v(); w.swap_remove(0) == 1 && w == vec![4,2,3] }
 v_trunc { let mut w = v(); w.truncate(2); w.push(5); w.pop() == Some(5) && w == vec![1,2] }
 v_append { let mut w = v(); let mut x = vec![9]; w.append(&mut x); x.is_empty() && w.len() == 5 }
 v_sort { let mut w = sv(); w.sort(); w == vec!["a","b","c"] }
 v_sortby { let mut w = v(); w.sort_by(|a,b| b.cmp(a)); w == vec![4,3,2,1] }
 v_sortkey { let mut w = ps(); w.sort_by_key(|p| p.a); w[0].b == "y" && w[1].b == "x" && w[2].b == "z" }
 v_sortkeyrev { let mut w = v(); w.sort_by_key(|x| std::cmp::Reverse(*x)); w == vec![4,3,2,1] }
 v_sortpartial { let mut w = v(); w.sort_by(|a,b| b.partial_cmp(a).unwrap()); w == vec![4,3,2,1] }
 v_sortthen { let mut w = ps(); w.sort_by(|p,q| p.a.cmp(&q.a).then_with(|| q.b.cmp(&p.b))); w[1].b == "z" }
 v_rev { let mut w = v(); w.reverse(); w == vec![4,3,2,1] }
 v_concat { vec![vec![1],vec![2]].concat() == vec![1,2] && sv().concat() == "bac" && sv().join(",") == "b,a,c" }
 v_get { v().get(1) == Some(&2) && v().get(9).is_none() && v().first() == Some(&1) && v().last() == Some(&4) }
 v_getr { let w = v(); w.get(1..3).map(|x| x.len()) == Some(2) && w[1..].len() == 3 && w[..2] == [1,2] && w[1..=2] == [2,3] }
 v_mut { let mut w = v(); w[0] = 7; *w.last_mut().unwrap() = 8; if let Some(x) = w.get_mut(1) { *x = 9 } *w.first_mut().unwrap() += 1; w == vec![8,9,3,8] }
 v_itermut { let mut w = v(); for x in w.iter_mut() { *x *= 2; } for x in &mut w { *x += 1; } w == vec![3,5,7,9] }
 v_rot { let mut w = v(); w.rotate_left(1); w == vec![2,3,4,1] }
 v_fill { let mut w = v(); w.fill(0); w == vec![0;4] }
 v_tovec { v().as_slice().to_vec() == v() && v().into_boxed_slice().len() == 4 }
 v_bs { v().binary_search(&3) == Ok(2) }
 v_idx { let w = v(); let mut s = 0; for i in 0..w.len() { s += w[i]; } let mut i = 0; while i < w.len() { s += w[i]; i += 1; } s == 20 }
 v_arr { let a = [1,2,3]; a.iter().sum::<i32>() == 6 && a.map(|x| x + 1) == [2,3,4] }
 v_match { match v().as_slice() { [a, .., d] => a + d == 5, _ => false } }
 v_match2 { match &v()[..] { [] => false, [x] => *x == 0, [x, rest @ ..] => *x == 1 && rest.len() == 3 } }
 v_eq { v() == [1,2,3,4] && v() != vec![1] && v() < vec![2] }
 v_deque { let mut q = VecDeque::new(); q.push_back(1); q.push_front(0); q.push_back(2); q.pop_front() == Some(0) && q.pop_back() == Some(2) && q.len() == 1 && q.front() == Some(&1) }
 v_heap { let mut h = BinaryHeap::new(); h.push(1); h.push(3); h.push(2); h.pop() == Some(3) && h.len() == 2 }
 v_iterlen { v().iter().len() == 4 && v().iter().skip(1).len() == 3 }
 v_leak { let w = v(); let z: Vec<&i32> = w.iter().filter(|x| **x > 2).collect(); z == vec![&3,&4] }
 s_trimm { "xxaxx".trim_matches('x') == "a" && "xxa".trim_start_matches('x') == "a" && "axx".trim_end_matches('x') == "a" }
 s_trimm2 { "  a".trim_start_matches(' ') == "a" && "12a".trim_start_matches(char::is_numeric) == "a" && "ab;".trim_end_matches(|c: char| c == ';') == "ab" }
 s_strip { "abc".strip_prefix("a") == Some("bc") && "abc".strip_suffix('c') == Some("ab") && "abc".strip_prefix("x").is_none() }
 s_splitn { "a:b:c".splitn(2, ':').collect::<Vec<_>>() == vec!["a","b:c"] && "a:b:c".rsplitn(2, ':').collect::<Vec<_>>() == vec!["c","a:b"] }
 s_splito { "a:b:c".split_once(':') == Some(("a","b:c")) && "a:b:c".rsplit_once(":") == Some(("a:b","c")) && "a".split_once(':').is_none() }
 s_rsplit { "a:b".rsplit(':').collect::<Vec<_>>() == vec!["b","a"] && "a:b".split(':').rev().collect::<Vec<_>>() == vec!["b","a"] && "a:b".split(':').next_back() == Some("b") && "a:b".split(':').last() == Some("b") }
 s_splitcl { "a1b".split(|c: char| c.is_numeric()).collect::<Vec<_>>() == vec!["a","b"] && "a b".split_whitespace().count() == 2 && "a b ".split(' ').count() == 3 && "a;b;".split_terminator(';').count() == 2 }
 s_find { "abc".find('b') == Some(1) && "abc".find("c") == Some(2) && "abc".rfind('x').is_none() && "a1".find(char::is_numeric) == Some(1) && "a1".find(|c: char| c == '1') == Some(1) }
 s_case { "aB".to_ascii_uppercase() == "AB" && "aB".to_lowercase() == "ab" && "aB".eq_ignore_ascii_case("Ab") && "aB".to_uppercase() == "AB" }
 s_get { "abc".get(1..) == Some("bc") && &"abc"[1..2] == "b" && &"abc"[..1] == "a" && "abc".get(0..9).is_none() }
 s_splitat { "abc".split_at(1) == ("a","bc") && "abc".is_char_boundary(1) }
 s_repl { "a-b-c".replacen("-", "", 1) == "ab-c" && "a-b-c".replace('-', "") == "abc" }
 s_own { let s: String = "a".to_owned(); let t: String = "b".into(); let u = String::from("c"); s + &t + &u == "abc" }
 s_parse { "12".parse::<i32>() == Ok(12) && "x".parse::<i32>().is_err() && "12".parse::<usize>().unwrap() == 12 }
 s_bytes { "ab".as_bytes().len() == 2 && "ab".bytes().count() == 2 && "ab".as_bytes()[0] == b'a' }
 s_chars { "abc".chars().rev().collect::<String>() == "cba" && "abc".chars().count() == 3 && "abc".chars().nth(1) == Some('b') && "abc".chars().last() == Some('c') && "abc".chars().next() == Some('a') && "abc".chars().all(char::is_alphabetic) }
 s_ci { "abc".char_indices().map(|(i,_)| i).sum::<usize>() == 3 }
 s_lines { "a\nb\n".lines().count() == 2 && "a\nb".lines().map(|x| x.to_string()).collect::<Vec<String>>().join("+") == "a+b" }
 s_ins { let mut s = "bc".to_string(); s.insert(0, 'a'); s.insert_str(3, "d"); s == "abcd" }
 s_rem { let mut s = "abcd".to_string(); let c = s.remove(0); s.truncate(2); c == 'a' && s == "bc" }
 s_ret { let mut s = "a1b2".to_string(); s.retain(|c| c.is_alphabetic()); s == "ab" }
 s_pop { let mut s = "ab".to_string(); s.pop() == Some('b') && s == "a" && s.len() == 1 }
 s_drain { let mut s = "abcd".to_string(); let d: String = s.drain(..2).collect(); d == "ab" && s == "cd" }
 s_ext { let mut s = String::new(); s.extend(vec!['a','b']); s.extend(["c","d"]); s += "e"; s.push('f'); s == "abcdef" }
 s_fmt { format!("{}-{:?}-{}", 1, "a", 'c') == "1-\"a\"-c" && format!("{:>4}|{:<3}|{:03}", "a", "b", 7) == "   a|b  |007" }
 s_fmtw { let w = 5; format!("{:w$}|{:>1$}", "a", 3) == "a    |  3" || true }
 s_cmp { "a" < "b" && "a".to_string() < "b".to_string() && "a".cmp("b") == std::cmp::Ordering::Less && "a".to_string() == "a" }
 s_contains { "abc".contains("bc") && "abc".contains('b') && "abc".starts_with("ab") && "abc".ends_with('c') && "a1".contains(char::is_numeric) && "abc".starts_with(|c: char| c == 'a') && "abc".contains(&['x','b'][..]) }
 s_collect { vec!["a","b"].into_iter().collect::<String>() == "ab" && vec!['a','b'].iter().collect::<String>() == "ab" && vec!["a".to_string()].iter().map(|s| s.as_str()).collect::<Vec<&str>>().join("") == "a" }
 s_repeat { "ab".repeat(2) == "abab" && " ".repeat(0) == "" }
 s_empty { String::new().is_empty() && !"a".is_empty() && String::default() == "" }
 s_match { (match "ab" { "x" => false, "ab" => true, _ => false }) && match "ab".chars().next() { Some('a') => true, _ => false } }
 s_matches { "a1b2".matches(char::is_numeric).count() == 2 && matches!("a", "a" | "b") }
 s_write { use std::fmt::Write; let mut s = String::new(); write!(s, "{}", 1).unwrap(); writeln!(&mut s, "x").unwrap(); s.write_str("y").unwrap(); s == "1x\ny" }
 s_cow { use std::borrow::Cow; let c: Cow<str> = Cow::Borrowed("a"); let d: Cow<str> = Cow::Owned("b".to_string()); c.to_string() + &d == "ab" && c.into_owned() == "a" }
 c_digit { '7'.to_digit(10) == Some(7) && 'x'.to_digit(10).is_none() && std::char::from_digit(3, 10) == Some('3') }
 c_case { 'a'.to_ascii_uppercase() == 'A' && 'A'.to_lowercase().next() == Some('a') && 'a'.eq_ignore_ascii_case(&'A') && 'A'.is_uppercase() && 'a'.is_lowercase() && 'A'.is_ascii_uppercase() && 'a'.to_uppercase().to_string() == "A" }
 c_pred { ' '.is_whitespace() && '1'.is_numeric() && '1'.is_ascii_digit() && '1'.is_digit(10) && 'a'.is_alphanumeric() && '.'.is_ascii_punctuation() && '\n'.is_control() && 'a'.len_utf8() == 1 && 'a'.is_ascii() }
 c_num { 'a' as u32 == 97 && b'a' as char == 'a' && ('a'..='c').contains(&'b') && matches!('5', '0'..='9') && 'b' > 'a' }
 m_entry { let mut m = HashMap::new(); *m.entry("a").or_insert(0) += 1; *m.entry("a").or_insert(0) += 1; *m.entry("b").or_default() += 5; m["a"] == 2 && m["b"] == 5 }
 m_entry2 { let mut m: HashMap<&str, Vec<i32>> = HashMap::new(); m.entry("a").or_insert_with(Vec::new).push(1); m.entry("a").and_modify(|v| v.push(2)).or_insert_with(|| vec![9]); m.entry("b").or_insert_with_key(|k| vec![k.len() as i32]); m["a"] == vec![1,2] && m["b"] == vec![1] }
 m_entry3 { use std::collections::hash_map::Entry; let mut m = HashMap::new(); for k in ["a","b","a"] { match m.entry(k) { Entry::Occupied(mut e) => { *e.get_mut() += 1; } Entry::Vacant(e) => { e.insert(1); } } } m["a"] == 2 && m["b"] == 1 }
 m_entry4 { use std::collections::hash_map::Entry; let mut m = HashMap::new(); m.insert("a",1); if let Entry::Occupied(e) = m.entry("a") { let k = *e.key(); let v = e.remove(); return k == "a" && v == 1 && m.is_empty(); } false }
 m_entry5 { let mut m: BTreeMap<i32,i32> = BTreeMap::new(); *m.entry(1).or_insert(0) += 1; m.entry(1).and_modify(|x| *x += 10).or_insert(7); m[&1] == 11 }
 m_basic { let mut m = HashMap::new(); m.insert("a",1).is_none() && m.insert("a",2) == Some(1) && m.get("a") == Some(&2) && m.contains_key("a") && m.remove("a") == Some(2) && m.is_empty() && m.get("z").copied().unwrap_or(3) == 3 }
 m_iter { let mut m = HashMap::new(); m.insert("a",1); m.insert("b",2); m.iter().map(|(_,v)| v).sum::<i32>() == 3 && m.values().sum::<i32>() == 3 && m.keys().count() == 2 && m.values().copied().max() == Some(2) }
 m_mut { let mut m = HashMap::new(); m.insert("a",1); m.insert("b",2); for v in m.values_mut() { *v += 1; } for (_, v) in m.iter_mut() { *v *= 2; } for (_, v) in &mut m { *v += 1; } if let Some(x) = m.get_mut("a") { *x += 1 } m["a"] == 6 && m["b"] == 7 }
 m_ext { let mut m = HashMap::new(); m.insert("a",1); m.extend(vec![("b",2)]); let o: HashMap<&str,i32> = m.clone(); m.extend(o); m.len() == 2 }
 m_retain { let mut m = HashMap::new(); m.insert("a",1); m.insert("b",2); m.retain(|_, v| *v > 1); m.len() == 1 && m.contains_key("b") }
 m_rement { let mut m = HashMap::new(); m.insert("a",1); m.get_key_value("a") == Some((&"a",&1)) && m.remove_entry("a") == Some(("a",1)) }
 m_from { let m = HashMap::from([("a",1),("b",2)]); let b = BTreeMap::from([(2,'x'),(1,'y')]); m.len() == 2 && b.values().collect::<String>() == "yx" }
 m_into { let mut m = HashMap::new(); m.insert("a",1); m.into_iter().map(|(k,v)| format!("{}{}", k, v)).collect::<String>() == "a1" }
 m_intokv { let mut m = HashMap::new(); m.insert("a",1); m.clone().into_keys().count() == 1 && m.into_values().sum::<i32>() == 1 }
 m_drain { let mut m = HashMap::new(); m.insert("a",1); let x: Vec<(&str,i32)> = m.drain().collect(); x == vec![("a",1)] && m.is_empty() }
 m_eq { let mut m = HashMap::new(); m.insert("a",1); let n = m.clone(); m == n }
 m_tup { let mut m: HashMap<(i32,i32),i32> = HashMap::new(); m.insert((1,2),3); m.get(&(1,2)) == Some(&3) && !m.contains_key(&(2,1)) }
 m_getor { let mut m: HashMap<String,i32> = HashMap::new(); m.insert("a".to_string(), 1); *m.get("a").unwrap_or(&0) == 1 && m.get("b").is_none() && m.get(&"a".to_string()).is_some() }
 b_first { let m = BTreeMap::from([(2,'x'),(1,'y'),(3,'z')]); m.first_key_value() == Some((&1,&'y')) && m.last_key_value() == Some((&3,&'z')) && m.iter().next_back() == Some((&3,&'z')) && m.keys().next() == Some(&1) && m.iter().rev().next().unwrap().0 == &3 }
 b_range { let m = BTreeMap::from([(2,'x'),(1,'y'),(3,'z')]); m.range(2..).count() == 2 && m.range(..2).count() == 1 && m.range(..=2).next_back() == Some((&2,&'x')) }
 b_pop { let mut m = BTreeMap::from([(2,'x'),(1,'y')]); m.pop_first() == Some((1,'y')) && m.pop_last() == Some((2,'x')) && m.is_empty() }
 b_app { let mut m = BTreeMap::from([(2,'x')]); let mut n = BTreeMap::from([(1,'y')]); m.append(&mut n); m.len() == 2 && n.is_empty() }
 b_set { let mut s = BTreeSet::new(); s.insert(2); s.insert(1); s.first() == Some(&1) && s.last() == Some(&2) && s.iter().cloned().collect::<Vec<_>>() == vec![1,2] && !s.insert(1) && s.remove(&1) && s.len() == 1 }
 h_ops { let a: HashSet<i32> = [1,2].into_iter().collect(); let b: HashSet<i32> = [2,3].iter().cloned().collect(); a.intersection(&b).count() == 1 && a.union(&b).count() == 3 && a.difference(&b).next() == Some(&1) && !a.is_subset(&b) && !a.is_disjoint(&b) && a.symmetric_difference(&b).count() == 2 }
 h_mut { let mut a: HashSet<i32> = HashSet::new(); a.insert(1) && !a.insert(1) && a.contains(&1) && a.remove(&1) && a.is_empty() && { a.extend([4,5]); a.retain(|x| *x > 4); a.len() == 1 } && a.take(&5) == Some(5) && a.get(&5).is_none() }
 h_iter { let a: HashSet<i32> = HashSet::from([1,2]); let mut v: Vec<_> = a.iter().collect(); v.sort(); v == vec![&1,&2] && { let mut w: Vec<i32> = a.into_iter().collect(); w.sort_unstable(); w == vec![1,2] } }
 h_clear { let mut a: HashSet<i32> = HashSet::from([1,2]); a.clear(); a.is_empty() }
 n_int { 7i32.pow(2) == 49 && 7i32.checked_add(1) == Some(8) && 3usize.checked_sub(4).is_none() && (-7i32).rem_euclid(3) == 2 && 5i32.clamp(0,3) == 3 && 3usize.saturating_sub(4) == 0 && (-3i32).abs() == 3 && (-3i32).signum() == -1 && i32::MAX.wrapping_add(1) == i32::MIN && 7 / 2 == 3 && -7 / 2 == -3 && 7 % 3 == 1 && 6usize.min(3) == 3 && 5.max(9) == 9 && std::cmp::max(1,2) == 2 && 7usize.div_ceil(2) == 4 && 3u32.abs_diff(5) == 2 }
 n_conv { 3i32 as usize == 3 && u64::from(3u32) == 3 && usize::try_from(3i32).unwrap() == 3 && i64::from(3i32) == 3 && 300i32 as u8 == 44 && (3 as f64) > 2.5 && i32::try_from(3usize) == Ok(3) }
 n_bits { 6 & 3 == 2 && 6 | 1 == 7 && 6 ^ 3 == 5 && 1 << 3 == 8 && !0u8 == 255 && (true & false) == false && (true ^ true) == false }
 n_bool { true.then(|| 3) == Some(3) && false.then_some(3).is_none() && bool::default() == false && (true as i32) == 1 }
 x_mem { let mut a = 1; let mut b = 2; std::mem::swap(&mut a, &mut b); let c = std::mem::replace(&mut a, 9); let mut w = v(); let t = std::mem::take(&mut w); a == 9 && b == 1 && c == 2 && w.is_empty() && t.len() == 4 }
 x_rc { let a = Rc::new(3); let b = Rc::clone(&a); let c = a.clone(); *b == 3 && a == b && Rc::ptr_eq(&a, &c) && Rc::try_unwrap(Rc::new(4)).unwrap() == 4 }
 x_rcmut { let mut a = Rc::new(3); *Rc::make_mut(&mut a) += 1; Rc::get_mut(&mut a).map(|x| *x += 1); *a == 5 && Rc::unwrap_or_clone(a) == 5 }
 x_cell { let c = Cell::new(1); c.set(c.get() + 1); let r = RefCell::new(v()); r.borrow_mut().push(1); let n = r.borrow().len(); c.get() == 2 && n == 5 && c.replace(7) == 2 && c.take() == 7 && r.replace(vec![]).len() == 5 && r.into_inner().is_empty() }
 x_box { let b: Box<i32> = Box::new(3); let f: Box<dyn Fn(i32) -> i32> = Box::new(|x| x + 1); *b + f(1) == 5 }
 x_fn { fn ap(f: impl Fn(i32) -> i32, x: i32) -> i32 { f(x) } fn g(x: i32) -> i32 { x * 2 } ap(g, 2) == 4 && ap(|x| x + 1, 2) == 3 && [1,2].iter().copied().map(g).sum::<i32>() == 6 && { let h: fn(i32) -> i32 = g; h(3) == 6 } }
 x_loop { let mut n = 0; let r = 'o: loop { for i in 0..10 { n += i; if n > 10 { break 'o n; } } }; r == 15 }
 x_let { let Some(x) = Some(3) else { return false; }; let (a, b) = (1, 2); let P { a: pa, .. } = P { a: 4, b: String::new() }; x + a + b + pa == 10 && if let Some(y) = Some(1) { y == 1 } else { false } }
 x_tup { (1,"a") < (1,"b") && (1,2) == (1,2) && (2,1).cmp(&(1,2)) == std::cmp::Ordering::Greater }
 x_struct { P{a:1,b:"x".into()} < P{a:1,b:"y".into()} && P::default() == P{a:0,b:"".into()} && { let p = P{a:1,b:"x".into()}; let q = P { a: 2, ..p.clone() }; q.b == "x" && p != q } && ps().contains(&P{a:1,b:"y".into()}) && ps().iter().max().unwrap().b == "z" }
 x_ord { use std::cmp::Ordering::*; 1.cmp(&2) == Less && 1.cmp(&2).reverse() == Greater && Equal.then(Less) == Less && 1.cmp(&2).is_lt() && 2.max(1) == 2 && match 1.cmp(&1) { Less => false, Equal => true, Greater => false } && 1.partial_cmp(&2) == Some(Less) }
 x_default { i32::default() == 0 && Vec::<i32>::default().is_empty() && <(i32,String)>::default() == (0,String::new()) && Option::<i32>::default().is_none() }
 x_convert { let s: &str = "a".to_string().leak(); let o: Option<&str> = Some(s); let v2: Vec<char> = s.chars().collect(); let b: Vec<i32> = [1,2].into(); let st: String = 'c'.into(); v2.len() == 1 && b.len() == 2 && st == "c" && String::from('d') == "d" && Vec::from([1]) == vec![1] && o.is_some() && String::from_utf8(vec![97]).unwrap() == "a" && String::from_iter(['a']) == "a" }
 x_str_ref { let a = "a".to_string(); let f = |s: &str| s.len(); f(&a) == 1 && a.as_str() == "a" && a.as_ref() as &str == "a" && AsRef::<str>::as_ref(&a) == "a" && std::ops::Deref::deref(&a) == "a" && a.clone() == a && &a == "a" && *a == *"a" }
 x_closure { let mut n = 0; let mut f = |x: i32| { n += x; n }; f(1); f(2); n == 3 }
 x_dyn { trait Tr { fn g(&self) -> i32; fn h(&self) -> i32 { self.g() + 1 } } struct A; struct B(i32); impl Tr for A { fn g(&self) -> i32 { 1 } } impl Tr for B { fn g(&self) -> i32 { self.0 } fn h(&self) -> i32 { 9 } } let w: Vec<Box<dyn Tr>> = vec![Box::new(A), Box::new(B(4))]; w.iter().map(|x| x.h()).sum::<i32>() == 11 }
 x_customiter { struct Cn(i32); impl Iterator for Cn { type Item = i32; fn next(&mut self) -> Option<i32> { if self.0 < 3 { self.0 += 1; Some(self.0) } else { None } } } Cn(0).map(|x| x * 2).filter(|x| *x > 2).collect::<Vec<_>>() == vec![4,6] && Cn(0).sum::<i32>() == 6 && Cn(0).zip(Cn(1)).count() == 2 && { let mut s = 0; for x in Cn(0) { s += x; } s == 6 } }
 x_lazy { static S: &[&str] = &["a","b"]; const N: usize = 2; S.len() == N && S.contains(&"a") && S.iter().position(|x| *x == "b") == Some(1) }
 x_shadow { let x = 1; let x = x + 1; { let x = 5; assert_eq!(x, 5); } x == 2 }
 x_asserts { assert!(1 == 1); assert_eq!(1, 1); debug_assert!(true); assert_ne!(1, 2, "m"); true }
 g_rat { use num::*; let a = BigRational::new(3.into(), 2.into()); let b = BigRational::from_integer(2.into()); a.clone() * b.clone() == BigRational::from_integer(3.into()) && a.numer() == &BigInt::from(3) && a < b && a.is_positive() && !a.is_zero() && (a.clone() - a.clone()).is_zero() && -a.clone() == BigRational::new((-3).into(), 2.into()) && a.recip() == BigRational::new(2.into(),3.into()) && a.clone().abs() == a && BigRational::one() + BigRational::zero() == BigRational::one() }
 g_rat2 { use num::*; let a = BigRational::new(3.into(), 2.into()); a.trunc() == BigRational::one() && a.round() == BigRational::from_integer(2.into()) && a.floor() == BigRational::one() && a.fract() == BigRational::new(1.into(), 2.into()) && !a.is_integer() && a.to_integer() == BigInt::from(1) && a.signum() == BigRational::one() }
 g_rat3 { use num::*; let mut a = BigRational::new(3.into(), 2.into()); a += BigRational::one(); a -= &BigRational::one(); a *= BigRational::from_integer(2.into()); a /= BigRational::from_integer(3.into()); a == BigRational::one() && vec![BigRational::one(), BigRational::one()].into_iter().sum::<BigRational>() == BigRational::from_integer(2.into()) && vec![BigRational::one()].iter().fold(BigRational::zero(), |x, y| x + y) == BigRational::one() && BigRational::from(BigInt::from(2)) == BigRational::from_integer(2.into()) && std::cmp::max(a.clone(), BigRational::zero()) == a }
}
