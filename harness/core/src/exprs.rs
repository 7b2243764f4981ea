//! C14 filter expressions, C13 partition pruning, C20 meta fields.
use crate::rt::*;
use arrow_array::*;
use arrow_schema::{DataType, Field, Schema, TimeUnit};
use hudi_core::expr::filter::{col, from_str_tuples, Filter, SchemableFilter};
use hudi_core::expr::ExprOperator;
use serde_json::json;
use std::cmp::Ordering;
use std::str::FromStr;
use std::sync::Arc;

const OPS: [(&str, ExprOperator); 6] = [("=", ExprOperator::Eq), ("!=", ExprOperator::Ne), ("<", ExprOperator::Lt), ("<=", ExprOperator::Lte), (">", ExprOperator::Gt), (">=", ExprOperator::Gte)];
pub fn accepts(tok: &str, o: Ordering) -> bool {
    match tok { "=" => o == Ordering::Equal, "!=" => o != Ordering::Equal, "<" => o == Ordering::Less, "<=" => o != Ordering::Greater, ">" => o == Ordering::Greater, ">=" => o != Ordering::Less, _ => unreachable!() }
}
fn complement(tok: &str) -> &'static str { match tok { "=" => "!=", "!=" => "=", "<" => ">=", "<=" => ">", ">" => "<=", ">=" => "<", _ => unreachable!() } }
fn triple(f: &Filter) -> (String, String, String) { f.clone().into() }

/// a column of one type: its cells as text, how the text compares
pub struct Column { pub ty: DataType, pub cells: Vec<Option<String>>, pub array: ArrayRef }
fn ord_i(a: &str, b: &str) -> Option<Ordering> { Some(a.parse::<i128>().ok()?.cmp(&b.parse::<i128>().ok()?)) }
/// the order of two texts read as values of the type; None when one is no value of it
pub fn cell_cmp(ty: &DataType, a: &str, b: &str) -> Option<Ordering> {
    let int = |lo: i128, hi: i128| -> Option<Ordering> { let (x, y) = (a.parse::<i128>().ok()?, b.parse::<i128>().ok()?); if x < lo || x > hi || y < lo || y > hi { return None; } ord_i(a, b) };
    match ty {
        DataType::Int8 => int(i8::MIN as i128, i8::MAX as i128), DataType::Int16 => int(i16::MIN as i128, i16::MAX as i128), DataType::Int32 => int(i32::MIN as i128, i32::MAX as i128), DataType::Int64 => int(i64::MIN as i128, i64::MAX as i128),
        DataType::UInt32 => int(0, u32::MAX as i128),
        DataType::Float64 => Some(a.parse::<f64>().ok()?.total_cmp(&b.parse::<f64>().ok()?)),
        DataType::Utf8 | DataType::LargeUtf8 => Some(a.as_bytes().cmp(b.as_bytes())),
        DataType::Boolean => Some(a.parse::<bool>().ok()?.cmp(&b.parse::<bool>().ok()?)),
        DataType::Date32 => { let f = |s: &str| { let b = s.as_bytes(); if b.len() == 10 && b[4] == b'-' && b[7] == b'-' { chrono::NaiveDate::parse_from_str(s, "%Y-%m-%d").ok() } else { None } }; Some(f(a)?.cmp(&f(b)?)) }
        _ => None,
    }
}
/// a text that is, or is not quite, a value of the type
pub fn text_of(r: &mut Rng, ty: &DataType, valid: bool) -> String {
    if !valid { return r.pick(&["", "x", "1x", "99999999999999999999999", "2024-13-01", "tru", "--1", "0x10"]).to_string(); }
    match ty {
        DataType::Int8 => r.pick(&["-128", "127", "0", "1", "-1", "9", "10", "100", "2"]).to_string(),
        DataType::Int16 => r.pick(&["-32768", "32767", "0", "9", "10", "2024"]).to_string(),
        DataType::Int32 => r.pick(&["-2147483648", "2147483647", "0", "9", "10", "100", "-1", "2024"]).to_string(),
        DataType::Int64 => r.pick(&["-9223372036854775808", "9223372036854775807", "0", "9", "10", "100", "-10", "20240101"]).to_string(),
        DataType::UInt32 => r.pick(&["0", "9", "10", "4294967295"]).to_string(),
        DataType::Float64 => r.pick(&["0.5", "-0.5", "10.25", "9.5", "1e300", "-1e300", "3", "0"]).to_string(),
        DataType::Utf8 | DataType::LargeUtf8 => { let n = r.below(4); (0..n).map(|_| *r.pick(&['a', 'b', 'B', '1', '0', ' ', 'é', '/', '='])).collect() }
        DataType::Boolean => r.pick(&["true", "false"]).to_string(),
        DataType::Date32 => r.pick(&["1970-01-01", "1969-12-31", "2024-02-29", "2024-03-01", "0999-01-01", "9999-12-31"]).to_string(),
        _ => unreachable!(),
    }
}
pub fn array_of(ty: &DataType, cells: &[Option<String>]) -> ArrayRef {
    macro_rules! num { ($a:ty, $t:ty) => { Arc::new(<$a>::from(cells.iter().map(|c| c.as_ref().map(|c| c.parse::<$t>().unwrap())).collect::<Vec<Option<$t>>>())) as ArrayRef } }
    match ty {
        DataType::Int8 => num!(Int8Array, i8), DataType::Int16 => num!(Int16Array, i16), DataType::Int32 => num!(Int32Array, i32), DataType::Int64 => num!(Int64Array, i64), DataType::UInt32 => num!(UInt32Array, u32),
        DataType::Float64 => num!(Float64Array, f64), DataType::Boolean => num!(BooleanArray, bool),
        DataType::Utf8 => Arc::new(StringArray::from(cells.to_vec())), DataType::LargeUtf8 => Arc::new(LargeStringArray::from(cells.to_vec())),
        DataType::Date32 => { let e = chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap(); Arc::new(Date32Array::from(cells.iter().map(|c| c.as_ref().map(|c| (chrono::NaiveDate::parse_from_str(c, "%Y-%m-%d").unwrap() - e).num_days() as i32)).collect::<Vec<_>>())) }
        _ => unreachable!(),
    }
}
pub const TYPES: [DataType; 9] = [DataType::Int8, DataType::Int16, DataType::Int32, DataType::Int64, DataType::UInt32, DataType::Float64, DataType::Utf8, DataType::Boolean, DataType::Date32];

pub fn c14(cx: &mut Ctx) {
    cx.rule("operator tokens over all strings of up to 3 symbols; filters from triples and from the API; columns of nine types with nulls against literals of the type and not; non-trivial = evaluated over at least two rows");
    // tokens
    let alpha = ['=', '!', '<', '>', 'a', ' ', '≤'];
    let mut ss = vec![String::new()];
    for i in 0..alpha.len().pow(3) { let t: String = [i % 7, i / 7 % 7, i / 49].iter().map(|k| alpha[*k]).collect(); for n in 1..=3 { ss.push(t.chars().take(n).collect()); } }
    ss.sort(); ss.dedup();
    ss.extend(["==", "<>", "eq", "EQ", "=<", "LIKE", "＝"].map(String::from));
    for s in ss {
        let want = OPS.iter().find(|(t, _)| *t == s).map(|x| x.1);
        cx.case(false, s.clone(), || json!(s));
        match guard(|| ExprOperator::from_str(&s).ok()) {
            Ok(g) if g == want => {}
            g => cx.violation("token", "an operator token is not read as the operator it names", json!({"token": s, "expected": format!("{want:?}"), "got": format!("{g:?}")})),
        }
        match guard(|| Filter::try_from(("c", s.as_str(), "v")).map(|f| triple(&f)).ok()) {
            Ok(g) if g == want.map(|_| ("c".to_string(), s.clone(), "v".to_string())) => {}
            g => cx.violation("triple", "a textual triple is not read back from the filter it makes", json!({"triple": ["c", s, "v"], "got": format!("{g:?}")})),
        }
    }
    for (t, op) in OPS {
        if op.to_string() != t { cx.violation("display", "an operator is not written as its token", json!({"operator": format!("{op:?}"), "expected": t, "got": op.to_string()})); }
        match op.negate() {
            Some(n) if n.to_string() == complement(t) && n.negate() == Some(op) => {}
            g => cx.violation("negate", "the negation of an operator is not its complement", json!({"operator": t, "expected": complement(t), "got": format!("{g:?}")})),
        }
    }
    let mut r = cx.rng(14);
    let n = if cx.thorough { 60_000 } else { 6000 };
    for k in 0..n {
        if cx.done() { return; }
        let (tok, op) = *r.pick(&OPS);
        // construction
        let name = r.string(&['a', 'B', '_', ' ', '.', 'é', '\''], 5);
        let val = r.string(&['1', '0', '-', '.', ' ', 'x', '\'', '%', '='], 6);
        let f = match tok { "=" => col(name.clone()).eq(val.clone()), "!=" => col(name.clone()).ne(val.clone()), "<" => col(name.clone()).lt(val.clone()), "<=" => col(name.clone()).lte(val.clone()), ">" => col(name.clone()).gt(val.clone()), _ => col(name.clone()).gte(val.clone()) };
        let want = (name.clone(), tok.to_string(), val.clone());
        let ts = [(name.as_str(), tok, val.as_str()), ("x", "=", "1")];
        let g = from_str_tuples(&ts).map(|v| v.iter().map(triple).collect::<Vec<_>>()).unwrap_or_default();
        if triple(&f) != want || f.operator != op || g != vec![want.clone(), ("x".into(), "=".into(), "1".into())] { cx.violation("build", "a filter does not keep the comparison written", json!({"written": want, "api": triple(&f), "tuples": g})); }
        match f.negate() { Some(m) if triple(&m) == (name.clone(), complement(tok).to_string(), val.clone()) => {}, m => cx.violation("negate", "negating a filter changes more than its operator", json!({"filter": want, "got": format!("{m:?}")})) }
        // evaluation
        let ty = TYPES[k % TYPES.len()].clone();
        let rows = r.below(6);
        let cells: Vec<Option<String>> = (0..rows).map(|_| if r.chance(1, 5) { None } else { Some(text_of(&mut r, &ty, true)) }).collect();
        let ok = r.chance(5, 6);
        let lit = if ok && r.chance(1, 3) && cells.iter().any(|c| c.is_some()) { cells.iter().flatten().next().unwrap().clone() } else { text_of(&mut r, &ty, ok) };
        let other = TYPES[r.below(TYPES.len())].clone();
        let schema = Schema::new(vec![Field::new("a", other, true), Field::new("c", ty.clone(), true), Field::new("z", DataType::Timestamp(TimeUnit::Microsecond, None), true)]);
        let case = json!({"type": ty.to_string(), "cells": cells, "op": tok, "literal": lit});
        cx.case(rows >= 2, case.to_string(), || case.clone());
        let valid = cell_cmp(&ty, &lit, &lit).is_some();
        let got = guard(|| -> Result<Vec<Option<bool>>, String> {
            let f = Filter::try_from(("c", tok, lit.as_str())).map_err(|e| e.to_string())?;
            let s = SchemableFilter::try_from((f, &schema)).map_err(|e| format!("bind: {e}"))?;
            if s.field.name() != "c" { return Err("bound to another column".into()); }
            let b = s.apply_comparsion(&array_of(&ty, &cells)).map_err(|e| e.to_string())?;
            Ok(b.iter().collect())
        });
        if valid {
            let want: Vec<Option<bool>> = cells.iter().map(|c| c.as_ref().map(|c| accepts(tok, cell_cmp(&ty, c, &lit).unwrap()))).collect();
            if got != Ok(Ok(want.clone())) { cx.violation("evaluate", "a filter does not accept exactly the rows its comparison holds for", json!({"case": case, "expected": want, "got": format!("{got:?}")})); }
        } else if !matches!(&got, Ok(Err(e)) if e.starts_with("bind")) && matches!(ty, DataType::Int8 | DataType::Int16 | DataType::Int32 | DataType::Int64 | DataType::UInt32) {
            cx.violation("literal", "a literal that is no value of the column's type is taken", json!({"case": case, "got": format!("{got:?}")}));
        }
        if matches!(guard(|| SchemableFilter::try_from((Filter::try_from(("nope", tok, "1")).unwrap(), &schema)).is_err()), Ok(false) | Err(_)) { cx.violation("column", "a filter on a column the schema lacks is bound", json!({"op": tok})); }
    }
}

pub fn c20(cx: &mut Ctx) {
    use hudi_core::metadata::meta_field::MetaField;
    cx.rule("every meta field, and names that differ from a meta field's name in one place, in case, or by a prefix or suffix; all are non-trivial");
    let all = [(MetaField::CommitTime, "_hoodie_commit_time"), (MetaField::CommitSeqno, "_hoodie_commit_seqno"), (MetaField::RecordKey, "_hoodie_record_key"), (MetaField::PartitionPath, "_hoodie_partition_path"), (MetaField::FileName, "_hoodie_file_name"), (MetaField::Operation, "_hoodie_operation")];
    let (five, six) = (MetaField::schema(), MetaField::schema_with_operation());
    if five.fields().len() != 5 || six.fields().len() != 6 { cx.violation("schema", "the meta field schemas do not have five and six columns", json!({"five": format!("{five:?}"), "six": format!("{six:?}")})); }
    for (k, (m, name)) in all.iter().enumerate() {
        let col = |s: &Schema| s.fields().get(k).map(|f| (f.name().clone(), f.data_type().clone(), f.is_nullable()));
        let want = Some((name.to_string(), DataType::Utf8, false));
        let mut bad = vec![];
        if m.as_ref() != *name || m.to_string() != *name || format!("{m}") != *name { bad.push(format!("named {:?} and shown as {:?}", m.as_ref(), m.to_string())); }
        if guard(|| MetaField::from_str(name).ok()) != Ok(Some(m.clone())) { bad.push("not read back from its name".into()); }
        if m.field_index() != k { bad.push(format!("index {}", m.field_index())); }
        if col(&six) != want || (k < 5 && col(&five) != want) { bad.push(format!("columns {:?} and {:?}", col(&five), col(&six))); }
        if k < 5 && five.index_of(name).ok() != Some(m.field_index()) { bad.push("not at its index in the schema".into()); }
        cx.case(true, name, || json!(name));
        if !bad.is_empty() { cx.violation("field", "a meta field does not have its name or its place", json!({"name": name, "place": k, "what": bad})); }
        // near misses are no meta fields
        let mut near: Vec<String> = vec![format!("{name} "), format!(" {name}"), format!("{name}\0"), name.to_uppercase(), name[1..].to_string(), format!("_{name}"), name.replace('_', "-"), name.replace("_hoodie", "_hudi"), String::new(), format!("{name}s")];
        for i in 0..name.len() { for c in ['_', 'a', 'e', 'é', 'O'] { let s: String = name.chars().enumerate().map(|(j, x)| if j == i { c } else { x }).collect(); near.push(s); } let mut s = name.to_string(); s.remove(i); near.push(s); }
        for s in near {
            if all.iter().any(|x| x.1 == s) { continue; }
            cx.case(true, s.clone(), || json!(s));
            match guard(|| MetaField::from_str(&s).ok()) { Ok(None) => {}, g => cx.violation("other", "a name that is none of the meta fields' is taken for one", json!({"name": s, "got": format!("{g:?}")})) }
        }
    }
}
