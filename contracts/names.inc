//@include prelude.rs
//@include error.rs
verus! {
//@rule method iter vx_iter
//@rule method split_once vx_split_once
//@rule method rsplit_once vx_rsplit_once
//@rule method split vx_split
//@rule method starts_with vx_starts_with
//@rule method to_string vx_to_string
//@rule method parse vx_parse
//@rule range_index
//@type crates/core/src/storage/file_metadata.rs FileMetadata clone
//@type crates/core/src/file_group/base_file.rs BaseFile clone
//@type crates/core/src/file_group/log_file/mod.rs LogFile clone
//@type crates/core/src/file_group/log_file/mod.rs LOG_FILE_PREFIX ensures LOG_FILE_PREFIX == '.'
pub open spec fn us() -> Seq<char> { seq!['_'] }
pub open spec fn dot() -> Seq<char> { seq!['.'] }

//@prop C07
// ---- base file names ---------------------------------------------------------------------------
pub open spec fn base_name(id: Seq<char>, tok: Seq<char>, ts: Seq<char>, ext: Seq<char>) -> Seq<char> { (id + us() + (tok + us() + ts)) + dot() + ext }
/// s is a base file name with these components
pub open spec fn is_base(s: Seq<char>, id: Seq<char>, tok: Seq<char>, ts: Seq<char>, ext: Seq<char>) -> bool {
    s == base_name(id, tok, ts, ext) && !id.contains('_') && !tok.contains('_') && !ts.contains('_') && !ext.contains('.')
}
pub open spec fn base_of(s: Seq<char>, b: BaseFile) -> bool { is_base(s, b.file_id@, b.write_token@, b.commit_timestamp@, b.extension@) }
pub open spec fn no_base(s: Seq<char>) -> bool { forall|id: Seq<char>, tok: Seq<char>, ts: Seq<char>, ext: Seq<char>| !#[trigger] is_base(s, id, tok, ts, ext) }
//@fn crates/core/src/file_group/base_file.rs BaseFile::parse_file_name
@rule opaque_fmt
@spec
    ensures match ret { Ok((id, tok, ts, ext)) => is_base(file_name@, id@, tok@, ts@, ext@), Err(_) => no_base(file_name@) }
@start
    proof {
        assert forall|s: Seq<char>| #![trigger split_char(s, '_')] split_char(s, '_').len() >= 1 && (split_char(s, '_').len() == 3 ==> ({ let p = split_char(s, '_'); s == p[0] + us() + (p[1] + us() + p[2]) && !p[0].contains('_') && !p[1].contains('_') && !p[2].contains('_') })) by { lemma_split_three(s, '_'); }
        assert forall|id: Seq<char>, tok: Seq<char>, ts: Seq<char>, ext: Seq<char>, a: Seq<char>, b: Seq<char>| #![trigger is_base(file_name@, id, tok, ts, ext), a + dot() + b]
            is_base(file_name@, id, tok, ts, ext) && file_name@ == a + dot() + b && !b.contains('.') implies a == id + us() + (tok + us() + ts) && split_char(a, '_').len() == 3 by {
            lemma_rsplit_unique(a, b, id + us() + (tok + us() + ts), ext, '.'); lemma_split_three_back(id, tok, ts, '_'); }
        assert forall|id: Seq<char>, tok: Seq<char>, ts: Seq<char>, ext: Seq<char>| #![trigger is_base(file_name@, id, tok, ts, ext)] is_base(file_name@, id, tok, ts, ext) implies file_name@.contains('.') by { lemma_contains_mid(id + us() + (tok + us() + ts), ext, '.'); }
    }
//@end
/// the components of a name are unique
pub proof fn base_unique(s: Seq<char>, id: Seq<char>, tok: Seq<char>, ts: Seq<char>, ext: Seq<char>, id2: Seq<char>, tok2: Seq<char>, ts2: Seq<char>, ext2: Seq<char>)
    requires is_base(s, id, tok, ts, ext), is_base(s, id2, tok2, ts2, ext2)
    ensures id == id2, tok == tok2, ts == ts2, ext == ext2
{
    lemma_rsplit_unique(id + us() + (tok + us() + ts), ext, id2 + us() + (tok2 + us() + ts2), ext2, '.');
    lemma_split_unique(id, tok + us() + ts, id2, tok2 + us() + ts2, '_');
    lemma_split_unique(tok, ts, tok2, ts2, '_');
}
//@fn crates/core/src/file_group/base_file.rs BaseFile::file_name
@spec
    ensures ret@ == base_name(self.file_id@, self.write_token@, self.commit_timestamp@, self.extension@)
@start
    proof { reveal_strlit("_"); reveal_strlit("."); assert("_"@ =~= us()); assert("."@ =~= dot());
        let (a, b, c, d) = (self.file_id@, self.write_token@, self.commit_timestamp@, self.extension@);
        assert((((((Seq::<char>::empty() + a) + us()) + b) + us()) + c) + dot() + d =~= base_name(a, b, c, d)); }
//@end
//@fn crates/core/src/file_group/base_file.rs FromStr for BaseFile::from_str
@spec
    ensures match ret { Ok(b) => base_of(file_name@, b) && b.file_metadata is None, Err(_) => no_base(file_name@) }
//@end
//@fn crates/core/src/file_group/base_file.rs TryFrom<FileMetadata> for BaseFile::try_from
@spec
    ensures match ret { Ok(b) => base_of(metadata.name@, b) && b.file_metadata == Some(metadata), Err(_) => no_base(metadata.name@) }
//@end
//@fn crates/core/src/file_group/base_file.rs PartialEq for BaseFile::eq
@spec
    ensures ret == (base_name(self.file_id@, self.write_token@, self.commit_timestamp@, self.extension@) == base_name(other.file_id@, other.write_token@, other.commit_timestamp@, other.extension@))
//@end

//@prop C07 C08
// ---- log file names ------------------------------------------------------------------------------
pub open spec fn log_name(id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>) -> Seq<char> { dot() + (id + us() + ((ts + dot() + (ext + dot() + ver)) + us() + tok)) }
pub open spec fn is_log(s: Seq<char>, id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>) -> bool {
    s == log_name(id, ts, ext, ver, tok) && log_parts(id, ts, ext, ver, tok)
}
pub open spec fn log_parts(id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>) -> bool {
    !id.contains('_') && !ts.contains('.') && !ext.contains('.') && !ver.contains('.') && !tok.contains('_')
    && id.len() > 0 && ts.len() > 0 && ext.len() > 0 && ver.len() > 0 && tok.len() > 0
}
pub open spec fn wf_log(l: LogFile) -> bool { log_parts(l.file_id@, l.base_commit_timestamp@, l.extension@, l.version@, l.write_token@) }
pub open spec fn log_of(s: Seq<char>, l: LogFile) -> bool { is_log(s, l.file_id@, l.base_commit_timestamp@, l.extension@, l.version@, l.write_token@) }
pub open spec fn no_log(s: Seq<char>) -> bool { forall|id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>| !#[trigger] is_log(s, id, ts, ext, ver, tok) }
pub open spec fn log_name_of(l: LogFile) -> Seq<char> { log_name(l.file_id@, l.base_commit_timestamp@, l.extension@, l.version@, l.write_token@) }
pub proof fn log_unique(id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>, id2: Seq<char>, ts2: Seq<char>, ext2: Seq<char>, ver2: Seq<char>, tok2: Seq<char>)
    requires log_parts(id, ts, ext, ver, tok), log_parts(id2, ts2, ext2, ver2, tok2), log_name(id, ts, ext, ver, tok) == log_name(id2, ts2, ext2, ver2, tok2)
    ensures id == id2, ts == ts2, ext == ext2, ver == ver2, tok == tok2
{
    let m = ts + dot() + (ext + dot() + ver); let m2 = ts2 + dot() + (ext2 + dot() + ver2);
    let r = id + us() + (m + us() + tok); let r2 = id2 + us() + (m2 + us() + tok2);
    assert((dot() + r).drop_first() =~= r); assert((dot() + r2).drop_first() =~= r2);
    lemma_split_unique(id, m + us() + tok, id2, m2 + us() + tok2, '_');
    lemma_rsplit_unique(m, tok, m2, tok2, '_');
    lemma_split_unique(ts, ext + dot() + ver, ts2, ext2 + dot() + ver2, '.');
    lemma_split_unique(ext, ver, ext2, ver2, '.');
}
/// what a log file name looks like after each cut the parser makes
pub open spec fn log_mid(ts: Seq<char>, ext: Seq<char>, ver: Seq<char>) -> Seq<char> { ts + dot() + (ext + dot() + ver) }
pub proof fn log_cuts(s: Seq<char>)
    ensures
        is_prefix(dot(), s) ==> byte_pos(s, 1, 1) && s == dot() + s.subrange(1, s.len() as int),
        forall|id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>| #[trigger] is_log(s, id, ts, ext, ver, tok) ==>
            is_prefix(dot(), s) && s.subrange(1, s.len() as int) == id + us() + (log_mid(ts, ext, ver) + us() + tok) && s.subrange(1, s.len() as int).contains('_'),
        forall|id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>, a: Seq<char>, b: Seq<char>| #![trigger is_log(s, id, ts, ext, ver, tok), a + us() + b]
            is_log(s, id, ts, ext, ver, tok) && s.subrange(1, s.len() as int) == a + us() + b && !a.contains('_') ==> a == id && b == log_mid(ts, ext, ver) + us() + tok && b.contains('_'),
        forall|id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>, a: Seq<char>, b: Seq<char>| #![trigger is_log(s, id, ts, ext, ver, tok), a + us() + b]
            is_log(s, id, ts, ext, ver, tok) && log_mid(ts, ext, ver) + us() + tok == a + us() + b && !b.contains('_') ==> a == log_mid(ts, ext, ver) && b == tok && split_char(a, '.') == seq![ts, ext, ver],
{
    if is_prefix(dot(), s) { assert(s.subrange(0, 1) =~= dot()); vstd::utf8::is_ascii_chars_encode_utf8(dot()); assert(s =~= dot() + s.subrange(1, s.len() as int)); }
    assert forall|id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>| #[trigger] is_log(s, id, ts, ext, ver, tok) implies
            is_prefix(dot(), s) && s.subrange(1, s.len() as int) == id + us() + (log_mid(ts, ext, ver) + us() + tok) && s.subrange(1, s.len() as int).contains('_') by {
        let r = id + us() + (log_mid(ts, ext, ver) + us() + tok);
        assert(s =~= dot() + r); assert(s.subrange(1, s.len() as int) =~= r); assert(s.subrange(0, 1) =~= dot()); lemma_contains_mid(id, log_mid(ts, ext, ver) + us() + tok, '_');
    }
    assert forall|id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>, a: Seq<char>, b: Seq<char>| #![trigger is_log(s, id, ts, ext, ver, tok), a + us() + b]
            is_log(s, id, ts, ext, ver, tok) && s.subrange(1, s.len() as int) == a + us() + b && !a.contains('_') implies a == id && b == log_mid(ts, ext, ver) + us() + tok && b.contains('_') by {
        lemma_split_unique(id, log_mid(ts, ext, ver) + us() + tok, a, b, '_'); lemma_contains_mid(log_mid(ts, ext, ver), tok, '_'); }
    assert forall|id: Seq<char>, ts: Seq<char>, ext: Seq<char>, ver: Seq<char>, tok: Seq<char>, a: Seq<char>, b: Seq<char>| #![trigger is_log(s, id, ts, ext, ver, tok), a + us() + b]
            is_log(s, id, ts, ext, ver, tok) && log_mid(ts, ext, ver) + us() + tok == a + us() + b && !b.contains('_') implies a == log_mid(ts, ext, ver) && b == tok && split_char(a, '.') == seq![ts, ext, ver] by {
        lemma_rsplit_unique(log_mid(ts, ext, ver), tok, a, b, '_'); lemma_split_three_back(ts, ext, ver, '.'); }
}
//@fn crates/core/src/file_group/log_file/mod.rs LogFile::parse_file_name
@rule opaque_fmt
@spec
    ensures match ret { Ok((id, ts, ext, ver, tok)) => is_log(file_name@, id@, ts@, ext@, ver@, tok@), Err(_) => no_log(file_name@) }
@start
    proof {
        log_cuts(file_name@);
        assert forall|s: Seq<char>| #![trigger split_char(s, '.')] split_char(s, '.').len() == 3 implies ({ let p = split_char(s, '.'); s == p[0] + dot() + (p[1] + dot() + p[2]) && !p[0].contains('.') && !p[1].contains('.') && !p[2].contains('.') }) by { lemma_split_three(s, '.'); }
    }
//@end
//@fn crates/core/src/file_group/log_file/mod.rs LogFile::file_name
@spec
    ensures ret@ == log_name_of(*self)
@start
    proof { reveal_strlit("_"); reveal_strlit("."); assert("_"@ =~= us()); assert("."@ =~= dot());
        let (a, b, c, d, e) = (self.file_id@, self.base_commit_timestamp@, self.extension@, self.version@, self.write_token@);
        assert((((((((((Seq::<char>::empty() + dot()) + a) + us()) + b) + dot()) + c) + dot()) + d) + us()) + e =~= log_name_of(*self)); }
//@end
//@fn crates/core/src/file_group/log_file/mod.rs FromStr for LogFile::from_str
@spec
    ensures match ret { Ok(l) => log_of(file_name@, l) && l.file_metadata is None, Err(_) => no_log(file_name@) }
//@end
//@fn crates/core/src/file_group/log_file/mod.rs TryFrom<FileMetadata> for LogFile::try_from
@spec
    ensures match ret { Ok(l) => log_of(metadata.name@, l) && l.file_metadata == Some(metadata), Err(_) => no_log(metadata.name@) }
//@end
//@fn crates/core/src/file_group/log_file/mod.rs PartialEq for LogFile::eq
@spec
    ensures ret == (log_name_of(*self) == log_name_of(*other))
//@end
/// Reading a log file name back gives the name.
pub proof fn log_round_trip(s: Seq<char>, l: LogFile) requires log_of(s, l) ensures log_name_of(l) == s {}

//@prop C08
// ---- order of log files ----------------------------------------------------------------------------
/// the write order: base commit, version as a number, version text, token, then the rest
pub open spec fn log_order(a: LogFile, b: LogFile) -> Ordering {
    let o1 = str_order(a.base_commit_timestamp@, b.base_commit_timestamp@);
    let o2 = opt_u64_order(parsed_u64(a.version@), parsed_u64(b.version@));
    let o3 = str_order(a.version@, b.version@);
    let o4 = str_order(a.write_token@, b.write_token@);
    let o5 = str_order(a.file_id@, b.file_id@);
    let o6 = str_order(a.extension@, b.extension@);
    if o1 != Ordering::Equal { o1 } else if o2 != Ordering::Equal { o2 } else if o3 != Ordering::Equal { o3 } else if o4 != Ordering::Equal { o4 } else if o5 != Ordering::Equal { o5 } else { o6 }
}
//@fn crates/core/src/file_group/log_file/mod.rs LogFile::version_number
@spec
    ensures ret == parsed_u64(self.version@)
//@end
//@fn crates/core/src/file_group/log_file/mod.rs Ord for LogFile::cmp
@rule method cmp vx_cmp
@spec
    ensures ret == log_order(*self, *other)
@closure 0
    || -> (r: Ordering) ensures r == opt_u64_order(parsed_u64(self.version@), parsed_u64(other.version@))
@closure 1
    || -> (r: Ordering) ensures r == str_order(self.version@, other.version@)
@closure 2
    || -> (r: Ordering) ensures r == str_order(self.write_token@, other.write_token@)
@closure 3
    || -> (r: Ordering) ensures r == str_order(self.file_id@, other.file_id@)
@closure 4
    || -> (r: Ordering) ensures r == str_order(self.extension@, other.extension@)
//@end
//@fn crates/core/src/file_group/log_file/mod.rs PartialOrd for LogFile::partial_cmp
@spec
    ensures ret == Some(log_order(*self, *other))
//@end
/// numeric versions of one base commit compare as numbers, whatever their digits
pub proof fn order_numeric(a: LogFile, b: LogFile)
    requires a.base_commit_timestamp@ == b.base_commit_timestamp@, digits(a.version@), digits(b.version@), a.version@.len() > 0, b.version@.len() > 0, dec(a.version@) <= u64::MAX, dec(b.version@) <= u64::MAX,
        0 <= dec(a.version@) < dec(b.version@)
    ensures log_order(a, b) == Ordering::Less
{ lemma_str_order(a.base_commit_timestamp@, b.base_commit_timestamp@, a.base_commit_timestamp@); }
/// the order is total, and equal exactly for files of the same name
pub proof fn order_laws(a: LogFile, b: LogFile, c: LogFile)
    ensures
        log_order(b, a) == flip(log_order(a, b)),
        log_order(a, b) == Ordering::Less && log_order(b, c) == Ordering::Less ==> log_order(a, c) == Ordering::Less,
        wf_log(a) && wf_log(b) ==> (log_order(a, b) == Ordering::Equal <==> log_name_of(a) == log_name_of(b)),
{
    lemma_str_order(a.base_commit_timestamp@, b.base_commit_timestamp@, c.base_commit_timestamp@); lemma_str_order(b.base_commit_timestamp@, c.base_commit_timestamp@, a.base_commit_timestamp@);
    lemma_str_order(a.version@, b.version@, c.version@); lemma_str_order(b.version@, c.version@, a.version@);
    lemma_str_order(a.write_token@, b.write_token@, c.write_token@); lemma_str_order(b.write_token@, c.write_token@, a.write_token@);
    lemma_str_order(a.file_id@, b.file_id@, c.file_id@); lemma_str_order(b.file_id@, c.file_id@, a.file_id@);
    lemma_str_order(a.extension@, b.extension@, c.extension@); lemma_str_order(b.extension@, c.extension@, a.extension@);
    if wf_log(a) && wf_log(b) && log_name_of(a) == log_name_of(b) { log_unique(a.file_id@, a.base_commit_timestamp@, a.extension@, a.version@, a.write_token@, b.file_id@, b.base_commit_timestamp@, b.extension@, b.version@, b.write_token@); }
}
}
