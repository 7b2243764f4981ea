//! C01 timeline file names, C02 the timeline of a table, C03 selection in time.
use crate::rt::*;
use chrono::{NaiveDate, TimeZone, Utc};
use hudi_core::timeline::instant::{Action, Instant, State};
use hudi_core::verif_hooks::InstantRange;
use serde_json::json;
use std::collections::BTreeMap;
use std::str::FromStr;

const ACTIONS: [(&str, Action); 3] = [("commit", Action::Commit), ("deltacommit", Action::DeltaCommit), ("replacecommit", Action::ReplaceCommit)];

/// Independent reading of a timestamp: epoch milliseconds in UTC, when it names one.
pub fn ts_millis(t: &str) -> Option<i64> {
    if !(t.len() == 14 || t.len() == 17) || !t.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let n = |a: usize, b: usize| t[a..b].parse::<u32>().unwrap();
    let d = NaiveDate::from_ymd_opt(n(0, 4) as i32, n(4, 6), n(6, 8))?;
    let (h, m, s) = (n(8, 10), n(10, 12), n(12, 14));
    if h > 23 || m > 59 || s > 60 { return None; }
    let ms = if t.len() == 17 { n(14, 17) as i64 } else { 0 };
    // chrono reads :60 as a leap second: second 59 plus 1000 ms, and with_nanosecond keeps second 59
    let base = Utc.from_utc_datetime(&d.and_hms_opt(h, m, s.min(59))?).timestamp_millis();
    Some(base + if s == 60 && t.len() == 14 { 1000 } else { ms })
}

/// Independent reading of a timeline file name.
pub fn read_name(name: &str) -> Option<(String, &'static str, &'static str, i64)> {
    let (t, rest) = name.split_once('.')?;
    let ms = ts_millis(t)?;
    for a in ["commit", "deltacommit", "replacecommit"] {
        if rest == a { return Some((t.into(), a, "", ms)); }
        for s in ["requested", "inflight"] { if rest == format!("{a}.{s}") { return Some((t.into(), a, s, ms)); } }
    }
    if rest == "inflight" { return Some((t.into(), "commit", "inflight", ms)); }
    None
}
pub fn gen_ts(r: &mut Rng) -> String {
    let y = *r.pick(&[0usize, 1, 1969, 1970, 1971, 1999, 2000, 2024, 2024, 2024, 2025, 9999]);
    let mut t = format!("{y:04}{:02}{:02}{:02}{:02}{:02}", r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60));
    if r.chance(2, 3) { t.push_str(&format!("{:03}", *r.pick(&[0usize, 1, 7, 10, 99, 100, 500, 998, 999]))); }
    t
}
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let al: Vec<char> = "0123456789.+- _commitdeltarpnfghqsuCZé٣\u{1F600}".chars().collect();
    for _ in 0..r.range(1, 2) {
        let i = r.below(cs.len() + 1);
        match r.below(5) {
            0 => cs.insert(i, *r.pick(&al)),
            1 if i < cs.len() => { cs.remove(i); }
            2 if i < cs.len() => cs[i] = *r.pick(&al),
            3 if i < cs.len() => { let c = cs[i]; cs.insert(i, c); }
            4 if !cs.is_empty() => { let j = r.below(cs.len()); let k = i.min(cs.len() - 1); cs.swap(j, k); }
            _ => {}
        }
    }
    cs.into_iter().collect()
}
fn state_name(s: &State) -> &'static str { match s { State::Requested => "requested", State::Inflight => "inflight", State::Completed => "" } }
fn action_name(a: &Action) -> &'static str { match a { Action::Commit => "commit", Action::DeltaCommit => "deltacommit", Action::ReplaceCommit => "replacecommit" } }

fn c01_name(cx: &mut Ctx, name: &str) {
    let want = read_name(name);
    cx.case(true, name.to_string(), || json!({"file_name": name, "accepted": want.is_some()}));
    match guard(|| Instant::from_str(name)) {
        Err(p) => cx.violation("name-panic", "reading a timeline file name panics", json!({"file_name": name, "panic": p})),
        Ok(Ok(i)) => {
            match &want {
                None => cx.violation("name-accepts", "a malformed timeline file name is taken for an instant", json!({"file_name": name, "got": format!("{i:?}")})),
                Some((t, a, s, ms)) => {
                    if (i.timestamp.as_str(), action_name(&i.action), state_name(&i.state), i.epoch_millis) != (t.as_str(), *a, *s, *ms) {
                        cx.violation("name-value", "a timeline file name is read as a different instant", json!({"file_name": name, "got": format!("{i:?}"), "want": format!("{want:?}")}));
                    }
                    if *s == "" {
                        let back = guard(|| i.file_name()).unwrap_or_else(|e| e);
                        if back != name { cx.violation("name-roundtrip", "a completed instant does not regenerate its file name", json!({"file_name": name, "regenerated": back})); }
                        let rp = guard(|| i.relative_path().ok()).ok().flatten();
                        if rp.as_deref() != Some(&format!(".hoodie/{name}")) { cx.violation("name-path", "an instant's path is not its file under .hoodie", json!({"file_name": name, "path": rp})); }
                    }
                }
            }
        }
        Ok(Err(_)) => if want.is_some() { cx.violation("name-rejects", "a well-formed timeline file name is rejected", json!({"file_name": name})); },
    }
}
pub fn c01(cx: &mut Ctx) {
    cx.rule("timeline file names: well-formed ones over calendar/precision/action/state corners, plus one- and two-edit mutations (including non-ASCII); every name is compared with an independent reader; a case is the distinct name");
    let mut r = cx.rng(1);
    let fixed = ["", ".", "20240101000000000", "20240101000000000.", "20240101000000000.commit.", "20240101000000000.commit.inflight", "20240101000000000.inflight", "20240101000000000.inflight.",
        "20240101000000000.deltacommit.inflight", "20240101000000000.replacecommit.requested", "20240101000000000.rollback", "20240101000000000.Commit", "20240101000000000.commit.completed", "2024010100000000é.commit",
        "20240101é0000000.commit", "2024010100000000.commit", "+2024010100000.commit", "20240101000000+12.commit", "20240101000000-12.commit", "2024 101000000.commit", "20240230000000.commit", "20231301000000.commit", "20240101240000.commit", "20240101006000.commit",
        "20240101000060.commit", "20240101000060999.commit", "00000101000000.commit", "20240229000000.commit", "20230229000000.commit", "20240101000000000.commit.requested.x", "20240101000000000..commit", ".commit", "٢٠٢٤٠١٠١٠٠٠٠٠٠.commit", "00000000000000000.commit"];
    for n in fixed { c01_name(cx, n); }
    let mut k = 0;
    let max = if cx.thorough { 4_000_000 } else { 300_000 };
    while k < max && !cx.done() {
        k += 1;
        let t = gen_ts(&mut r);
        let (a, _) = &ACTIONS[r.below(3)];
        let s = *r.pick(&["", "", ".requested", ".inflight"]);
        let mut n = if r.chance(1, 12) { format!("{t}.inflight") } else { format!("{t}.{a}{s}") };
        if r.chance(1, 2) { n = mutate(&mut r, &n); }
        c01_name(cx, &n);
        // every instant formats to a name that reads back as that instant
        if k % 3 == 0 {
            let i = Instant { timestamp: t.clone(), action: ACTIONS[r.below(3)].1.clone(), state: r.pick(&[State::Requested, State::Inflight, State::Completed]).clone(), epoch_millis: ts_millis(&t).unwrap_or(0) };
            cx.case(true, format!("{i:?}"), || json!({"instant": format!("{i:?}")}));
            match guard(|| Instant::from_str(&i.file_name())) {
                Ok(Ok(j)) if j == i => {}
                o => cx.violation("format-roundtrip", "formatting an instant and reading the name back gives a different instant", json!({"instant": format!("{i:?}"), "name": guard(|| i.file_name()).unwrap_or_default(), "got": format!("{o:?}")})),
            }
        }
    }
}

pub const PROPS_COW: &str = "hoodie.table.name=t\nhoodie.table.type=COPY_ON_WRITE\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.base.file.format=PARQUET\n";

/// C02: a .hoodie directory with all kinds of files; the timeline must be exactly the completed ones.
pub fn c02(cx: &mut Ctx) {
    cx.rule("random .hoodie directories on local disk: completed, inflight and requested instants of all actions, other actions, malformed and duplicate-looking names, both precisions; non-trivial: at least one completed and one non-completed or foreign file");
    let mut r = cx.rng(2);
    let max = if cx.thorough { 20_000 } else { 1_500 };
    let mut k = 0;
    while k < max && !cx.done() {
        k += 1;
        let sc = Scratch::new("c02");
        sc.write(".hoodie/hoodie.properties", PROPS_COW.as_bytes());
        let n = r.below(12);
        let mut names = vec![];
        let mut tss: Vec<String> = (0..r.range(1, 6)).map(|_| gen_ts(&mut r)).collect();
        // close neighbours: the same second, one millisecond apart
        if r.chance(1, 2) { let t = tss[0].clone(); tss.push(format!("{}{:03}", &t[..14], r.below(3))); tss.push(t[..14].to_string()); }
        for _ in 0..n {
            let t = r.pick(&tss).clone();
            let a = *r.pick(&["commit", "commit", "deltacommit", "replacecommit", "rollback", "clean", "compaction", "indexing", "savepoint", "Commit"]);
            let s = *r.pick(&["", "", "", ".inflight", ".requested", ".completed", ".bak"]);
            let mut nm = if r.chance(1, 10) { format!("{t}.inflight") } else { format!("{t}.{a}{s}") };
            if r.chance(1, 8) { nm = mutate(&mut r, &nm).replace('/', "_"); }
            if nm.is_empty() || nm == "." || nm == ".." || nm.starts_with("hoodie") || nm.len() > 200 || nm.contains(' ') { continue; }
            names.push(nm);
        }
        names.sort(); names.dedup();
        for nm in &names { sc.write(&format!(".hoodie/{nm}"), b"{}"); }
        if r.chance(1, 3) { sc.write(".hoodie/metadata/20240101000000000.commit", b"{}"); sc.write(".hoodie/.aux/20240101000000001.commit", b"{}"); }
        let want: Vec<(i64, String, &str)> = { let mut v: Vec<_> = names.iter().filter_map(|n| read_name(n)).filter(|x| x.2.is_empty()).map(|x| (x.3, x.0, x.1)).collect(); v.sort(); v };
        let nontrivial = !want.is_empty() && want.len() < names.len();
        cx.case(nontrivial, names.clone(), || json!({"files": names, "completed": want.len()}));
        let got = guard(|| cx.rt.block_on(hudi_core::table::Table::new(&sc.uri())));
        let tl = match got { Ok(Ok(t)) => t, o => { cx.violation("load", "a table with this .hoodie directory cannot be opened", json!({"files": names, "got": format!("{:?}", o.map(|x| x.map(|_| ()).map_err(|e| e.to_string())))})); continue; } };
        let view = |v: &[Instant]| -> Vec<(i64, String, &'static str)> { v.iter().map(|i| (i.epoch_millis, i.timestamp.clone(), action_name(&i.action))).collect() };
        let check = |cx: &mut Ctx, what: &str, v: &[Instant], want: &[(i64, String, &str)], desc: bool| {
            let g = view(v);
            let ordered = g.windows(2).all(|w| if desc { w[0].0 >= w[1].0 } else { w[0].0 <= w[1].0 });
            let mut gs = g.clone(); gs.sort();
            if !ordered || gs.iter().map(|x| (x.0, x.1.as_str(), x.2)).collect::<Vec<_>>() != want.iter().map(|x| (x.0, x.1.as_str(), x.2)).collect::<Vec<_>>() || v.iter().any(|i| i.state != State::Completed) {
                cx.violation(what, "the timeline is not the completed instants in time order", json!({"files": names, "got": format!("{g:?}"), "want": format!("{want:?}"), "descending": desc}));
            }
        };
        check(cx, "timeline", &tl.timeline.completed_commits, &want, false);
        let latest = guard(|| tl.timeline.get_latest_commit_timestamp().ok());
        let mx = want.iter().map(|w| w.0).max();
        if latest.clone().ok().flatten().map(|t| ts_millis(&t)) != mx.map(Some) { cx.violation("latest", "the latest commit is not the greatest completed instant", json!({"files": names, "got": format!("{latest:?}"), "want_millis": mx})); }
        for desc in [false, true] {
            let sub = |a: &str| want.iter().filter(|w| w.2 == a).cloned().collect::<Vec<_>>();
            for (a, res) in [("commit", guard(|| cx.rt.block_on(tl.timeline.get_completed_commits(desc)))), ("deltacommit", guard(|| cx.rt.block_on(tl.timeline.get_completed_deltacommits(desc)))), ("replacecommit", guard(|| cx.rt.block_on(tl.timeline.get_completed_replacecommits(desc))))] {
                match res { Ok(Ok(v)) => check(cx, &format!("completed-{a}"), &v, &sub(a), desc), o => cx.violation("completed", "listing completed instants fails", json!({"files": names, "action": a, "got": format!("{o:?}")})) }
            }
        }
        // clustering commits: replacecommits whose metadata says so
        let mut kinds = BTreeMap::new();
        for w in want.iter().filter(|w| w.2 == "replacecommit") {
            let op = *r.pick(&["cluster", "insert_overwrite", "insert_overwrite_table", "delete_partition"]);
            sc.write(&format!(".hoodie/{}.replacecommit", w.1), json!({"operationType": op, "partitionToWriteStats": {}}).to_string().as_bytes());
            kinds.insert((w.0, w.1.clone()), op);
        }
        if !kinds.is_empty() {
            let w2: Vec<_> = want.iter().filter(|w| kinds.get(&(w.0, w.1.clone())) == Some(&"cluster") && w.2 == "replacecommit").cloned().collect();
            match guard(|| cx.rt.block_on(tl.timeline.get_completed_clustering_commits(false))) { Ok(Ok(v)) => check(cx, "clustering", &v, &w2, false), o => cx.violation("clustering", "listing clustering instants fails", json!({"files": names, "got": format!("{o:?}")})) }
        }
    }
}

/// C03: ranges of instants.
pub fn c03(cx: &mut Ctx) {
    cx.rule("ranges (bounds absent/equal/adjacent, inclusive or not, both precisions, two time-zone spellings) against timestamps near the bounds, and incremental windows of whole tables; non-trivial: at least one bound present");
    let mut r = cx.rng(3);
    let max = if cx.thorough { 3_000_000 } else { 200_000 };
    let near = |r: &mut Rng, t: &str| -> String {
        let ms = ts_millis(t).unwrap_or(0) + *r.pick(&[-1000i64, -1, 0, 0, 1, 999, 1000]);
        let d = Utc.timestamp_millis_opt(ms).unwrap();
        let s = d.format("%Y%m%d%H%M%S%3f").to_string();
        if s.len() != 17 { return t.to_string(); }
        if r.chance(1, 3) { s[..14].to_string() } else { s }
    };
    for _ in 0..max {
        if cx.done() { break; }
        let t = gen_ts(&mut r);
        let a = if r.chance(1, 5) { None } else { Some(near(&mut r, &t)) };
        let b = if r.chance(1, 5) { None } else { Some(near(&mut r, &t)) };
        let (si, ei) = (r.chance(1, 2), r.chance(1, 2));
        let tz = *r.pick(&["UTC", "utc", "Utc", "local"]); // TZ=UTC in this process: local is UTC
        let which = r.below(4);
        let (rg, si, ei, a, b) = match (which, &a, &b) {
            (1, _, Some(e)) => (InstantRange::up_to(e, tz), false, true, None, b.clone()),
            (2, Some(s), Some(e)) => (InstantRange::within(s, e, tz), false, false, a.clone(), b.clone()),
            (3, Some(s), Some(e)) => (InstantRange::within_open_closed(s, e, tz), false, true, a.clone(), b.clone()),
            _ => (InstantRange::new(tz.to_string(), a.clone(), b.clone(), si, ei), si, ei, a.clone(), b.clone()),
        };
        let q = if r.chance(1, 20) { mutate(&mut r, &t) } else { near(&mut r, &t) };
        let want = ts_millis(&q).map(|m| a.as_ref().map_or(true, |s| { let s = ts_millis(s).unwrap(); s < m || (si && s == m) }) && b.as_ref().map_or(true, |e| { let e = ts_millis(e).unwrap(); m < e || (ei && e == m) }));
        cx.case(a.is_some() || b.is_some(), (q.clone(), a.clone(), b.clone(), si, ei), || json!({"timestamp": q, "start": a, "end": b, "start_inclusive": si, "end_inclusive": ei, "in": want}));
        let got = guard(|| rg.is_in_range(&q, "UTC").ok());
        if got != Ok(want) { cx.violation("range", "membership in a range of instants is wrong", json!({"timestamp": q, "start": a, "end": b, "start_inclusive": si, "end_inclusive": ei, "tz": tz, "got": format!("{got:?}"), "want": want})); }
        let ngot = guard(|| rg.not_in_range(&q, "UTC").ok());
        if ngot != Ok(want.map(|x| !x)) { cx.violation("range-not", "non-membership is not the negation of membership", json!({"timestamp": q, "start": a, "end": b, "got": format!("{ngot:?}"), "want": want})); }
        // the order of instants is the order of time
        let (u, v) = (near(&mut r, &t), near(&mut r, &t));
        let mk = |s: &str| Instant::from_str(&format!("{s}.commit")).unwrap();
        if let (Some(x), Some(y)) = (ts_millis(&u), ts_millis(&v)) { if mk(&u).cmp(&mk(&v)) != x.cmp(&y) { cx.violation("order", "instants are not ordered by time", json!({"a": u, "b": v})); } }
    }
    selectors(cx, &mut r);
}

/// A timeline selector over whole tables: (start, end] of completed instants with the wanted actions.
fn selectors(cx: &mut Ctx, r: &mut Rng) {
    use hudi_core::verif_hooks::TimelineSelector;
    let n = if cx.thorough { 3000 } else { 300 };
    for _ in 0..n {
        if cx.violations.len() >= 40 { break; }
        let sc = Scratch::new("c03");
        sc.write(".hoodie/hoodie.properties", PROPS_COW.as_bytes());
        let base = ts_millis("20240101000000000").unwrap();
        let fmt = |ms: i64| Utc.timestamp_millis_opt(ms).unwrap().format("%Y%m%d%H%M%S%3f").to_string();
        let mut ev: Vec<(i64, &str)> = (0..r.below(9)).map(|_| (base + r.below(12) as i64, *r.pick(&["commit", "deltacommit", "replacecommit"]))).collect();
        ev.sort(); ev.dedup();
        for (m, a) in &ev { sc.write(&format!(".hoodie/{}.{a}", fmt(*m)), b"{}"); }
        let Ok(Ok(t)) = guard(|| cx.rt.block_on(hudi_core::table::Table::new(&sc.uri()))) else { cx.violation("open", "table cannot be opened", json!({"events": format!("{ev:?}")})); continue };
        for _ in 0..25 {
            let s = if r.chance(1, 4) { None } else { Some(base - 1 + r.below(14) as i64) };
            let e = if r.chance(1, 4) { None } else { Some(base - 1 + r.below(14) as i64) };
            let (ss, es) = (s.map(fmt), e.map(fmt));
            let which = r.below(4);
            let cfg = t.hudi_configs.clone();
            let (act, sel): (Vec<&str>, _) = match which {
                0 => (vec!["commit"], TimelineSelector::completed_commits_in_range(cfg, ss.as_deref(), es.as_deref())),
                1 => (vec!["deltacommit"], TimelineSelector::completed_deltacommits_in_range(cfg, ss.as_deref(), es.as_deref())),
                2 => (vec!["replacecommit"], TimelineSelector::completed_replacecommits_in_range(cfg, ss.as_deref(), es.as_deref())),
                _ => (vec!["commit", "deltacommit", "replacecommit"], TimelineSelector::completed_actions_in_range(&[Action::Commit, Action::DeltaCommit, Action::ReplaceCommit], cfg, ss.as_deref(), es.as_deref())),
            };
            let want: Vec<(i64, &str)> = ev.iter().filter(|(m, a)| act.contains(a) && s.map_or(true, |s| s < *m) && e.map_or(true, |e| *m <= e)).cloned().collect();
            cx.case(s.is_some() || e.is_some(), (ev.clone(), s, e, which), || json!({"events": format!("{ev:?}"), "start": ss, "end": es, "actions": act, "selected": want.len()}));
            let got = guard(|| sel.and_then(|x| x.select(&t.timeline)).map(|v| { let mut v: Vec<(i64, &str)> = v.iter().map(|i| (i.epoch_millis, action_name(&i.action))).collect(); let ord = v.windows(2).all(|w| w[0].0 <= w[1].0); v.sort(); (ord, v) }).map_err(|e| e.to_string()));
            if got != Ok(Ok((true, want.clone()))) { cx.violation("select", "the selected instants are not exactly those in (start, end] with the wanted actions", json!({"events": format!("{ev:?}"), "start": ss, "end": es, "actions": act, "got": format!("{got:?}"), "want": format!("{want:?}")})); }
        }
    }
}
