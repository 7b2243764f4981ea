//! C07 data file names, C08 the order of log files.
use crate::rt::*;
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::FileGroup;
use hudi_core::storage::file_metadata::FileMetadata;
use serde_json::json;
use std::cmp::Ordering;
use std::str::FromStr;

/// Independent reading of a base file name: (id, token, timestamp, extension)
pub fn read_base(n: &str) -> Option<[String; 4]> {
    let cs: Vec<char> = n.chars().collect();
    let d = cs.iter().rposition(|c| *c == '.')?;
    let us: Vec<usize> = (0..d).filter(|i| cs[*i] == '_').collect();
    if us.len() != 2 { return None; }
    let g = |a: usize, b: usize| cs[a..b].iter().collect::<String>();
    Some([g(0, us[0]), g(us[0] + 1, us[1]), g(us[1] + 1, d), g(d + 1, cs.len())])
}
/// Independent reading of a log file name: (id, base timestamp, extension, version, token)
pub fn read_log(n: &str) -> Option<[String; 5]> {
    let cs: Vec<char> = n.chars().collect();
    if cs.first() != Some(&'.') { return None; }
    let f = cs.iter().position(|c| *c == '_')?;
    let l = cs.iter().rposition(|c| *c == '_')?;
    if l <= f { return None; }
    let g = |a: usize, b: usize| cs[a..b].iter().collect::<String>();
    let (id, mid, tok) = (g(1, f), g(f + 1, l), g(l + 1, cs.len()));
    let m: Vec<&str> = mid.split('.').collect();
    if m.len() != 3 || id.is_empty() || tok.is_empty() || m.iter().any(|x| x.is_empty()) { return None; }
    Some([id, m[0].into(), m[1].into(), m[2].into(), tok])
}
fn word(r: &mut Rng, al: &str, max: usize) -> String { let cs: Vec<char> = al.chars().collect(); r.string(&cs, max) }
pub fn gen_log(r: &mut Rng) -> String {
    let id = ["a079bdb3-731c-4894-b855-abfcd6921007-0", "f1", "x-0", "a.b", "é"][r.below(5)];
    let ts = ["20240101000000", "20240101000000000", "20240101000000001", "20250109233025121", "2"][r.below(5)];
    let ver = ["1", "2", "9", "10", "11", "99", "100", "01", "010", "0", "-1", "x", "18446744073709551615", "18446744073709551616", "1e3"][r.below(15)];
    let tok = ["0-1-1", "0-10-1", "0-2-1", "1-0-1", "0-51-115", "0"][r.below(6)];
    let ext = if r.chance(9, 10) { "log" } else { ["cdc", "log2", "hlog"][r.below(3)] };
    format!(".{id}_{ts}.{ext}.{ver}_{tok}")
}
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let al: Vec<char> = "._-0a.__/é\u{1F600}".chars().collect();
    for _ in 0..r.range(1, 3) {
        let i = r.below(cs.len() + 1);
        match r.below(4) { 0 => cs.insert(i, *r.pick(&al)), 1 if i < cs.len() => { cs.remove(i); } 2 if i < cs.len() => cs[i] = *r.pick(&al), _ => { let j = r.below(cs.len() + 1); if i < j { cs.drain(i..j); } } }
    }
    cs.into_iter().collect()
}
fn check_name(cx: &mut Ctx, n: &str) {
    let (b, l) = (read_base(n), read_log(n));
    cx.case(b.is_some() || l.is_some(), n.to_string(), || json!({"name": n, "base": b, "log": l}));
    let md = FileMetadata { name: n.to_string(), size: 7, byte_size: 0, num_records: 0, fully_populated: false };
    for via in ["from_str", "try_from"] {
        let got = guard(|| if via == "from_str" { BaseFile::from_str(n) } else { BaseFile::try_from(md.clone()) });
        match (&got, &b) {
            (Err(p), _) => cx.violation("base-panic", "parsing a base file name panics", json!({"name": n, "via": via, "panic": p})),
            (Ok(Ok(x)), Some(e)) => {
                let g = [x.file_id.clone(), x.write_token.clone(), x.commit_timestamp.clone(), x.extension.clone()];
                if g != *e { cx.violation("base-parts", "a base file name is read with the wrong components", json!({"name": n, "via": via, "got": g, "expected": e})); }
                if x.file_name() != n { cx.violation("base-roundtrip", "a base file writes back as another name", json!({"name": n, "via": via, "got": x.file_name()})); }
                if (via == "try_from") != (x.file_metadata.is_some()) { cx.violation("base-meta", "file metadata lost or invented", json!({"name": n, "via": via})); }
            }
            (Ok(Ok(x)), None) => cx.violation("base-accepts", "a name that is no base file name is taken for one", json!({"name": n, "via": via, "got": x.file_name()})),
            (Ok(Err(_)), Some(e)) => cx.violation("base-rejects", "a base file name is rejected", json!({"name": n, "via": via, "expected": e})),
            _ => {}
        }
        let got = guard(|| if via == "from_str" { LogFile::from_str(n) } else { LogFile::try_from(md.clone()) });
        match (&got, &l) {
            (Err(p), _) => cx.violation("log-panic", "parsing a log file name panics", json!({"name": n, "via": via, "panic": p})),
            (Ok(Ok(x)), Some(e)) => {
                let g = [x.file_id.clone(), x.base_commit_timestamp.clone(), x.extension.clone(), x.version.clone(), x.write_token.clone()];
                if g != *e { cx.violation("log-parts", "a log file name is read with the wrong components", json!({"name": n, "via": via, "got": g, "expected": e})); }
                if x.file_name() != n { cx.violation("log-roundtrip", "a log file writes back as another name", json!({"name": n, "via": via, "got": x.file_name()})); }
            }
            (Ok(Ok(x)), None) => cx.violation("log-accepts", "a name that is no log file name is taken for one", json!({"name": n, "via": via, "got": x.file_name()})),
            (Ok(Err(_)), Some(e)) => cx.violation("log-rejects", "a log file name is rejected", json!({"name": n, "via": via, "expected": e})),
            _ => {}
        }
    }
}
pub fn c07(cx: &mut Ctx) {
    cx.rule("file names: all short strings over {., _, a, -}, then generated base/log names and their mutations; non-trivial = the name denotes a data file");
    let al = ['.', '_', 'a'];
    for len in 0..=9usize {
        for k in 0..3usize.pow(len as u32) {
            let mut k = k; let s: String = (0..len).map(|_| { let c = al[k % 3]; k /= 3; c }).collect();
            check_name(cx, &s);
        }
        if cx.done() { return; }
    }
    let mut r = cx.rng(7);
    let n = if cx.thorough { 3_000_000 } else { 120_000 };
    for _ in 0..n {
        if cx.done() { return; }
        let mut s = if r.chance(1, 2) { gen_log(&mut r) } else {
            format!("{}_{}_{}.{}", word(&mut r, "ab-0.é", 12), word(&mut r, "01-.", 6), ["20240101000000", "20240101000000123", "", "x.y"][r.below(4)], ["parquet", "orc", "", "p"][r.below(4)]) };
        if r.chance(1, 2) { s = mutate(&mut r, &s); }
        check_name(cx, &s);
    }
}
fn num(v: &str) -> Option<u64> { if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) { None } else { v.parse().ok() } }
pub fn c08(cx: &mut Ctx) {
    cx.rule("triples of log files: ordering laws, numeric versions, agreement with equality; sets of log files added to a slice in any order; non-trivial = distinct names of one base commit");
    let mut r = cx.rng(8);
    let n = if cx.thorough { 2_000_000 } else { 150_000 };
    for it in 0..n {
        if cx.done() { return; }
        let names: Vec<String> = (0..3).map(|_| gen_log(&mut r)).collect();
        let mut fs = vec![];
        for n in &names { match LogFile::from_str(n) { Ok(f) => fs.push(f), Err(_) => {} } }
        if fs.len() < 3 { continue; }
        let names: Vec<String> = fs.iter().map(|f| f.file_name()).collect();
        cx.case(names[0] != names[1] && fs[0].base_commit_timestamp == fs[1].base_commit_timestamp, names.clone(), || json!(names));
        let (a, b, c) = (&fs[0], &fs[1], &fs[2]);
        let (ab, ba, bc, ac) = (a.cmp(b), b.cmp(a), b.cmp(c), a.cmp(c));
        if ab != ba.reverse() { cx.violation("antisymmetry", "the order of two log files depends on the side", json!({"a": names[0], "b": names[1], "ab": format!("{ab:?}"), "ba": format!("{ba:?}")})); }
        if a.partial_cmp(b) != Some(ab) { cx.violation("partial", "partial order differs from the order", json!({"a": names[0], "b": names[1]})); }
        if (ab == Ordering::Equal) != (a == b) || (a == b) != (names[0] == names[1]) { cx.violation("equality", "order and equality disagree, or distinct files are equal", json!({"a": names[0], "b": names[1], "cmp": format!("{ab:?}"), "eq": a == b})); }
        if ab != Ordering::Greater && bc != Ordering::Greater && (ac == Ordering::Greater || (ac == Ordering::Equal && (ab == Ordering::Less || bc == Ordering::Less))) { cx.violation("transitivity", "the order of log files is not transitive", json!({"a": names[0], "b": names[1], "c": names[2]})); }
        if ab == Ordering::Equal && bc == Ordering::Equal && ac != Ordering::Equal { cx.violation("transitivity", "equality of order is not transitive", json!({"a": names[0], "b": names[1], "c": names[2]})); }
        if a.base_commit_timestamp != b.base_commit_timestamp {
            if ab != a.base_commit_timestamp.cmp(&b.base_commit_timestamp) { cx.violation("base-commit", "log files are not ordered by base commit first", json!({"a": names[0], "b": names[1], "cmp": format!("{ab:?}")})); }
        } else if let (Some(x), Some(y)) = (num(&a.version), num(&b.version)) {
            if x != y && ab != x.cmp(&y) { cx.violation("numeric", "log versions are not ordered as numbers", json!({"a": names[0], "b": names[1], "cmp": format!("{ab:?}")})); }
            if a.version == b.version && a.write_token != b.write_token && ab != a.write_token.cmp(&b.write_token) { cx.violation("token", "log files of one version are not ordered by write token", json!({"a": names[0], "b": names[1], "cmp": format!("{ab:?}")})); }
        }
        if it % 4 == 0 {
            // a slice holds every distinct log file once, in order, however they were added
            let k = r.range(2, 9);
            let mut set: Vec<String> = (0..k).map(|i| format!(".f1_20240101000000000.log.{}_{}", [1usize, 2, 9, 10, 11, 100][r.below(6)], ["0-1-1", "0-2-1", "1-0-0"][i % 3])).collect();
            if r.chance(1, 2) { let d = set[0].clone(); set.push(d); }
            r.shuffle(&mut set);
            let res = guard(|| -> Result<Vec<String>, String> {
                let mut g = FileGroup::new_with_base_file_name("f1".into(), "p".into(), "f1_0-1-1_20240101000000000.parquet").map_err(|e| e.to_string())?;
                for n in &set { g.add_log_file_from_name(n).map_err(|e| e.to_string())?; }
                Ok(g.get_file_slice_as_of("20240101000000000").ok_or("no slice")?.log_files.iter().map(|l| l.file_name()).collect())
            });
            let mut want = set.clone();
            want.sort_by_key(|n| { let p = read_log(n).unwrap(); (p[3].parse::<u64>().unwrap(), p[4].clone()) });
            want.dedup();
            match res { Ok(Ok(got)) if got == want => {}, g => cx.violation("slice", "a slice loses, duplicates or misorders log files", json!({"added": set, "got": format!("{g:?}"), "expected": want})) }
        }
    }
}
