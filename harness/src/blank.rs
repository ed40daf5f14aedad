//! Blank node identifiers and their generators.
use crate::util::*;
use rdf_types::generator::{Blank, LocalGenerator, LocalGeneratorInterpretation};
use rdf_types::interpretation::{ConstGenerativeInterpretation, GenerativeInterpretation, WithLocalGenerator};
use rdf_types::{BlankId, BlankIdBuf, LocalTerm};
use serde_json::{json, Value};
use std::str::FromStr;

fn text(cs: &[i64]) -> String {
	cs.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect()
}
fn cps(s: &str) -> Vec<i64> {
	s.chars().map(|c| c as i64).collect()
}

/// What an entry point answered: the identifier's text and suffix, or the refused
/// input when it is handed back.
pub enum Answer {
	Id(String, String),
	Refused(Option<String>),
}
pub const ENTRIES: [&str; 9] = ["BlankId::new", "BlankIdBuf::new", "FromStr", "from_suffix", "deserialize borrowed", "deserialize escaped", "deserialize owned", "deserialize reader", "to_owned"];
fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for u in s.encode_utf16() {
		o.push_str(&format!("\\u{u:04x}"));
	}
	o.push('"');
	o
}
pub fn ask(entry: usize, s: &str) -> Option<Answer> {
	fn owned(b: BlankIdBuf) -> Answer {
		let b2: &BlankId = b.as_ref();
		let (t, f) = (b2.as_str().to_string(), b.suffix().to_string());
		// every way of reading the text must give the same
		if b.to_string() != t || b.as_str() != t || AsRef::<str>::as_ref(&b) != t || format!("{}", b2) != t || AsRef::<[u8]>::as_ref(&b) != t.as_bytes() || !(*b2 == *t.as_str()) {
			return Answer::Id(format!("inconsistent {b}"), f);
		}
		Answer::Id(t, f)
	}
	Some(match entry {
		0 => match BlankId::new(s) {
			Ok(b) => Answer::Id(b.as_str().to_string(), b.suffix().to_string()),
			Err(e) => Answer::Refused(Some(e.0.to_string())),
		},
		1 => match BlankIdBuf::new(s.to_string()) {
			Ok(b) => owned(b),
			Err(e) => Answer::Refused(Some(e.0)),
		},
		2 => match BlankIdBuf::from_str(s) {
			Ok(b) => owned(b),
			Err(e) => Answer::Refused(Some(e.0)),
		},
		3 => match BlankIdBuf::from_suffix(s.strip_prefix("_:")?) {
			Ok(b) => owned(b),
			Err(_) => Answer::Refused(None),
		},
		4 => match serde_json::from_str::<BlankIdBuf>(&serde_json::to_string(s).unwrap()) {
			Ok(b) => owned(b),
			Err(_) => Answer::Refused(None),
		},
		5 => match serde_json::from_str::<BlankIdBuf>(&esc(s)) {
			Ok(b) => owned(b),
			Err(_) => Answer::Refused(None),
		},
		6 => match serde_json::from_value::<BlankIdBuf>(Value::String(s.to_string())) {
			Ok(b) => owned(b),
			Err(_) => Answer::Refused(None),
		},
		7 => match serde_json::from_reader::<_, BlankIdBuf>(serde_json::to_string(s).unwrap().as_bytes()) {
			Ok(b) => owned(b),
			Err(_) => Answer::Refused(None),
		},
		_ => match BlankId::new(s) {
			Ok(b) => owned(b.to_owned()),
			Err(e) => Answer::Refused(Some(e.0.to_string())),
		},
	})
}

/// replay-blankid VECTORS
pub fn replay(args: &[String]) -> Out {
	let lines = read_lines(&args[0]);
	parallel(lines.len(), |range| {
		let mut out = Out::default();
		for l in &lines[range] {
			let s = text(&ints(&l["s"]));
			let want = l["ok"] == 1;
			beat_case(|| s.clone());
			out.cases += 1;
			for (e, name) in ENTRIES.iter().enumerate() {
				match guarded(|| ask(e, &s)) {
					Err(p) => out.fail(json!({"text": s, "entry": name, "panic": p})),
					Ok(None) => (),
					Ok(Some(Answer::Id(t, f))) => {
						out.check(want, || json!({"text": s, "entry": name, "accepted": true, "in the grammar": false}));
						out.check(t == s && Some(f.as_str()) == s.get(2..), || json!({"text": s, "entry": name, "reads": t, "suffix": f}));
					}
					Ok(Some(Answer::Refused(r))) => {
						out.check(!want, || json!({"text": s, "entry": name, "accepted": false, "in the grammar": true}));
						if let Some(r) = r {
							out.check(r == s, || json!({"text": s, "entry": name, "handed back": r}));
						}
					}
				}
			}
			if want {
				out.sample(|| json!(s));
				out.count("valid texts", 1);
			} else {
				out.count("invalid texts", 1);
			}
		}
		out
	})
}

/// record-blankid SEED TEXTS FILES PREFIX
pub fn record(args: &[String]) -> Out {
	let seed: u64 = args[0].parse().unwrap();
	let n: usize = args[1].parse().unwrap();
	let files: usize = args[2].parse().unwrap();
	let prefix = &args[3];
	let contexts: [(&str, &str); 9] = [("_:", ""), ("_:", "a"), ("_:a", ""), ("_:a", "b"), ("_:a.", ""), ("_:a.", ".0"), ("_", "a"), ("", ":a"), ("_:0-", "")];
	parallel(files, |range| {
		let mut out = Out::default();
		for f in range {
			let mut rng = Rng::new(seed.wrapping_mul(6007) + f as u64 * 15485863 + 11);
			let mut t = TraceOut::create(&format!("{prefix}{f}.ndjson"));
			// all code points, in each context, through one entry point per file
			for (k, (before, after)) in contexts.iter().enumerate() {
				if k % files.min(contexts.len()) != f % contexts.len().min(files) {
					continue;
				}
				for entry in [0usize, 1, 3, 6] {
					let mut rs: Vec<[u32; 2]> = Vec::new();
					for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
						if c as u32 % 4096 == 0 {
							beat_case(|| format!("{before}{c}{after} {}", ENTRIES[entry]));
						}
						let s = format!("{before}{c}{after}");
						let ok = match guarded(|| ask(entry, &s)) {
							Ok(Some(Answer::Id(..))) => true,
							Ok(_) => false,
							Err(p) => {
								out.fail(json!({"text": s, "entry": ENTRIES[entry], "panic": p}));
								false
							}
						};
						out.checks += 1;
						if ok {
							match rs.last_mut() {
								Some(r) if r[1] + 1 == c as u32 => r[1] = c as u32,
								_ => rs.push([c as u32, c as u32]),
							}
						}
					}
					if entry == 3 && !before.starts_with("_:") {
						continue;
					}
					t.put(&json!({"e": "scan", "b": cps(before), "a": cps(after), "entry": ENTRIES[entry], "r": rs}));
					out.count("code point scans", 1);
				}
			}
			// random texts, mostly near valid ones
			let edge: [u32; 40] = [0x5f, 0x3a, 0x2e, 0x2d, 0x30, 0x39, 0x41, 0x5a, 0x61, 0x7a, 0xb7, 0xb6, 0xb8, 0xc0, 0xbf, 0xd7, 0xf7, 0x2ff, 0x300, 0x36f, 0x370, 0x37e, 0x1fff, 0x2000, 0x200c, 0x200e, 0x203f, 0x2041, 0x2070, 0x2190, 0x2c00, 0x2ff0, 0x3000, 0xd7ff, 0xf900, 0xfdd0, 0xfffd, 0x10000, 0xeffff, 0xf0000];
			for _ in 0..(n + files - 1) / files {
				let len = match rng.below(24) { 0..=5 => rng.below(4), 6..=11 => rng.below(12), 12..=17 => rng.below(40), 18..=22 => rng.below(90), _ => 200 + rng.below(900) };
				// half of the texts are labels with at most one flaw
				let clean = rng.chance(1, 2);
				let flaw = match rng.below(5) { 0 => Some(len.saturating_sub(1)), 1 => Some(rng.below(len + 1)), _ => None };
				let mut s = String::new();
				if rng.chance(15, 16) {
					s.push_str("_:");
				}
				for at in 0..len {
					let c = match rng.below(40) {
						0..=2 if clean && flaw != Some(at) => *rng.pick(&['_', 'A', 'Z', 'é', 'ø', '\u{2ff}', '\u{370}', '\u{1fff}', '\u{200d}', '\u{2c00}', '\u{d7ff}', '\u{fffd}', '\u{10000}', '\u{effff}']),
						_ if clean && flaw == Some(at) => *rng.pick(&['\u{d7}', '\u{f7}', '.', '-', '\u{b7}', '\u{300}', '\u{37e}', '\u{2000}', ' ', '/', '\u{2190}', '\u{f0000}', '\u{3000}']),
						0 => char::from_u32(*rng.pick(&edge)).unwrap(),
						1 => char::from_u32(rng.below(0x110000) as u32).unwrap_or('x'),
						2 => (rng.below(128) as u8) as char,
						3..=6 => '.',
						7..=9 => '-',
						10..=12 => (b'0' + rng.below(10) as u8) as char,
						_ => (b'a' + rng.below(26) as u8) as char,
					};
					s.push(c);
				}
				beat_case(|| s.clone());
				out.cases += 1;
				let entry = rng.below(ENTRIES.len());
				match guarded(|| ask(entry, &s)) {
					Err(p) => out.fail(json!({"text": s, "entry": ENTRIES[entry], "panic": p})),
					Ok(None) => (),
					Ok(Some(Answer::Id(x, y))) => t.put(&json!({"e": "text", "s": cps(&s), "entry": ENTRIES[entry], "ok": 1, "t": cps(&x), "f": cps(&y)})),
					Ok(Some(Answer::Refused(r))) => t.put(&json!({"e": "text", "s": cps(&s), "entry": ENTRIES[entry], "ok": 0, "t": cps(&r.unwrap_or(s.clone())), "f": []})),
				}
			}
			// identifiers made from numbers
			let mut nums: Vec<u64> = (0..=64).flat_map(|b: u32| [1u64.checked_shl(b).unwrap_or(0), 1u64.checked_shl(b).unwrap_or(0).wrapping_sub(1), 1u64.checked_shl(b).unwrap_or(0).wrapping_add(1)]).collect();
			let mut p = 1u64;
			for _ in 0..19 {
				nums.extend([p, p - 1, p + 1]);
				p = p.saturating_mul(10);
			}
			for _ in 0..60 {
				nums.push(rng.next() >> rng.below(64));
			}
			nums.sort_unstable();
			nums.dedup();
			let id = |b: BlankIdBuf| cps(b.as_str());
			let u8s: Vec<u8> = (0..=255).collect();
			let lists: Vec<(&str, Vec<Result<Vec<i64>, String>>)> = vec![
				("u8", u8s.iter().map(|x| guarded(|| id(BlankIdBuf::from_u8(*x)))).collect()),
				("u16", nums.iter().filter(|x| **x <= u16::MAX as u64).map(|x| guarded(|| id(BlankIdBuf::from_u16(*x as u16)))).collect()),
				("u32", nums.iter().filter(|x| **x <= u32::MAX as u64).map(|x| guarded(|| id(BlankIdBuf::from_u32(*x as u32)))).collect()),
				("u64", nums.iter().map(|x| guarded(|| id(BlankIdBuf::from_u64(*x)))).collect()),
			];
			for (w, l) in lists {
				let mut ts = Vec::new();
				for r in l {
					match r {
						Ok(x) => ts.push(x),
						Err(p) => out.fail(json!({"entry": w, "panic": p})),
					}
				}
				t.put(&json!({"e": "num", "w": w, "t": ts}));
			}
			t.finish();
		}
		out
	})
}

fn digits(n: usize) -> Vec<i64> {
	n.to_string().bytes().map(|b| (b - b'0') as i64).collect()
}

enum Gen {
	Plain(Blank),
	Interp(LocalGeneratorInterpretation<Blank>),
	With(WithLocalGenerator<Blank, crate::interp::Interner>),
}
impl Gen {
	fn into(self) -> Blank {
		match self {
			Gen::Plain(b) => b,
			Gen::Interp(i) => i.into_generator(),
			Gen::With(w) => w.into_generator(),
		}
	}
}

/// record-blankgen SEED GENERATORS FILES PREFIX
pub fn record_gen(args: &[String]) -> Out {
	let seed: u64 = args[0].parse().unwrap();
	let n: usize = args[1].parse().unwrap();
	let files: usize = args[2].parse().unwrap();
	let prefix = &args[3];
	parallel(files, |range| {
		let mut out = Out::default();
		for f in range {
			let mut rng = Rng::new(seed.wrapping_mul(9001) + f as u64 * 32452843 + 3);
			let mut t = TraceOut::create(&format!("{prefix}{f}.ndjson"));
			for _ in 0..(n + files - 1) / files {
				let p = rng.pick(&["", "a", "b.", "0", "_", ":", "x-", "gen_", "é", "a.b.", "12", "𐀀"]).to_string();
				let offset = match rng.below(7) {
					0 => 0,
					1 => rng.below(200),
					2 => (1usize << (8 * (1 + rng.below(7)))) - 1 - rng.below(3),
					3 => usize::MAX - rng.below(6),
					4 => 10usize.pow(rng.below(20) as u32) - 1 - rng.below(1),
					5 => (1usize << 63) - rng.below(3),
					_ => rng.next() as usize,
				};
				beat_case(|| format!("{p} {offset}"));
				let b = match rng.below(4) {
					0 if p.is_empty() && offset == 0 => Blank::new(),
					1 if offset == 0 => Blank::new_with_prefix(p.clone()),
					2 if p.is_empty() => Blank::new_with_offset(offset),
					3 if p.is_empty() && offset == 0 => Blank::default(),
					_ => Blank::new_full(p.clone(), offset),
				};
				t.put(&json!({"e": "reset", "p": cps(&p), "n": digits(offset)}));
				out.cases += 1;
				let mut g = Gen::Plain(b);
				for _ in 0..1 + rng.below(5) {
					// change the way it is used
					g = match rng.below(3) {
						0 => Gen::Plain(g.into()),
						1 => Gen::Interp(LocalGeneratorInterpretation::new(g.into())),
						_ => Gen::With(WithLocalGenerator::new(crate::interp::Interner::default(), g.into())),
					};
					let calls = match rng.below(3) { 0 => rng.below(3), 1 => rng.below(12), _ => rng.below(30) };
					let mut issued: Vec<Vec<i64>> = Vec::new();
					let mut panicked = false;
					let mut tried = 0;
					let route = rng.below(3);
					for _ in 0..calls {
						tried += 1;
						let r = guarded(|| match &mut g {
							Gen::Plain(b) => match route {
								0 => b.next_blank_id().to_string(),
								1 => local(b.next_local_term()),
								_ => {
									let mut x = b;
									local(LocalGenerator::next_local_term(&mut x))
								}
							},
							Gen::Interp(i) => match route {
								0 => local(GenerativeInterpretation::new_resource(i)),
								_ => local(ConstGenerativeInterpretation::new_resource(i)),
							},
							Gen::With(w) => {
								let r = w.new_resource();
								w.inner_interpretation().only_term(r).map(local).unwrap_or_else(|| "no single term".to_string())
							}
						});
						match r {
							Ok(s) => issued.push(cps(&s)),
							Err(_) => {
								panicked = true;
								break;
							}
						}
					}
					out.checks += issued.len() as u64;
					t.put(&json!({"e": "next", "r": issued, "tried": tried, "pn": panicked as i64, "route": route}));
					if let Gen::Plain(b) = &g {
						t.put(&json!({"e": "count", "n": digits(b.count()), "p": cps(b.prefix())}));
					}
					if panicked {
						out.count("exhausted generators", 1);
						// it must go on refusing, and the counter must still read the limit
						let mut b = match std::mem::replace(&mut g, Gen::Plain(Blank::new())) {
							Gen::Plain(b) => b,
							x => x.into(),
						};
						let again = guarded(|| b.next_blank_id().to_string());
						t.put(&json!({"e": "next", "r": again.iter().map(|s| cps(s)).collect::<Vec<_>>(), "tried": 1, "pn": again.is_err() as i64, "route": 0}));
						t.put(&json!({"e": "count", "n": digits(b.count()), "p": cps(b.prefix())}));
						g = Gen::Plain(b);
					}
				}
			}
			t.finish();
		}
		out
	})
}
fn local(t: LocalTerm) -> String {
	match t {
		LocalTerm::Anonymous(b) => b.to_string(),
		x => format!("not a blank node: {x:?}"),
	}
}

/// many-blankgen SEED CALLS: no identifier is issued twice over long runs.
pub fn many(args: &[String]) -> Out {
	let calls: usize = args[1].parse().unwrap();
	parallel(8, |range| {
		let mut out = Out::default();
		for k in range {
			let offset = [0, 1 << 16, (1 << 32) - 1000, 999_000, (1 << 31) - 500, 255, (1 << 48) - 7, 1 << 62][k];
			let mut b = Blank::new_full(["", "p", "0", "a.", "", "1", "_", "z9"][k].to_string(), offset);
			let mut seen = std::collections::HashSet::new();
			for i in 0..calls {
				if i % 4096 == 0 {
					beat();
				}
				out.checks += 1;
				match guarded(|| b.next_blank_id()) {
					Ok(id) => {
						if BlankId::new(id.as_str()).is_err() || !seen.insert(id.to_string()) {
							out.fail(json!({"offset": offset, "call": i, "repeated or invalid": id.to_string()}));
						}
					}
					Err(p) => out.fail(json!({"offset": offset, "call": i, "panic": p})),
				}
			}
			out.cases += 1;
		}
		out
	})
}
