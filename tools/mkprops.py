#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long strings stay readable)."""
import json, os
C = "crates/core/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith("crates/") else C + f for f in files], "state": list(state),
                          "mechanism": [{"name": n, "where": (w if w.startswith("crates/") else C + w)} for n, w in mech], "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Timeline file names denote instants, exactly and reversibly",
  "A file name under the timeline directory is read as an instant exactly when it is a valid 14-digit (second) or 17-digit (millisecond) timestamp, a dot, and a recognised action with an optional requested/inflight state; the instant carries that timestamp, action and state and the point in time the timestamp denotes in the table's timeline time zone. Every other name is rejected with an error and never aborts the reader. Writing an instant back as a file name gives a name that reads back to the same instant, and different instants have different names.",
  ["inputs", "configurations"], "every string as a file name; every timestamp, action, state; both time zones",
  "The tests parse about a dozen fixed names; whether any other name is accepted, mis-read or panics is a statement over all strings.",
  ["timeline/instant.rs", "config/table.rs"],
  [("parse and validate a name", "timeline/instant.rs Instant::try_from_file_name_and_timezone"), ("action/state suffix", "timeline/instant.rs Instant::parse_action_and_state"), ("timestamp to point in time", "timeline/instant.rs Instant::parse_datetime"), ("format a name", "timeline/instant.rs Instant::file_name")],
  observe=["Instant::from_str", "Instant::try_from_file_name_and_timezone", "Instant::file_name", "Instant::parse_datetime"])
p("C02", "The loaded timeline is the completed commits, in order",
  "Opening a table loads, for every set of files found under its timeline directory, exactly the completed commit, delta commit and replace commit instants, in ascending order of time, ignoring pending instants and unrelated files. The table's latest commit timestamp is the greatest of them, absent when there is none.",
  ["inputs", "histories"], "every listing of the timeline directory: any mix of completed, inflight, requested and unrelated files, in any listing order",
  "The tests load a handful of fixture tables whose listings are well formed; no test quantifies over listings.",
  ["timeline/mod.rs", "timeline/selector.rs", "timeline/instant.rs"],
  [("load and sort", "timeline/selector.rs, timeline/mod.rs Timeline::load_instants"), ("which files count", "timeline/selector.rs TimelineSelector::try_create_instant"), ("latest commit", "timeline/mod.rs Timeline::get_latest_commit_timestamp")],
  observe=["Table::new", "Timeline::completed_commits", "Timeline::get_latest_commit_timestamp"])
p("C03", "Instants are selected by time exactly: after start, up to end",
  "Selecting the instants of a timeline between two timestamps returns exactly those of the requested actions and states that are later than the start and not later than the end, in timeline order, where an absent bound does not restrict; timestamps of second and millisecond precision are compared as points in time. A range test of a single timestamp honours the range's own bounds and inclusiveness the same way. A bound that is no timestamp is an error, not an empty or full answer.",
  ["inputs", "histories"], "every timeline (any number of instants, equal times included), every pair of bounds incl. absent, equal, reversed and malformed, both precisions",
  "The tests pin a few boundary cases on 3-4 instants; off-by-one at either end on other timelines is not excluded.",
  ["timeline/selector.rs", "timeline/mod.rs"],
  [("select a sub-range", "timeline/selector.rs TimelineSelector::select"), ("per-timestamp range test", "timeline/selector.rs InstantRange::is_in_range")],
  observe=["TimelineSelector::select", "InstantRange::is_in_range", "Timeline::get_completed_commits_in_range"])
p("C04", "A file group serves the newest slice not after the requested time",
  "For every set of base and log files added to a file group in any order, the group holds one slice per base file commit and attaches each log file to the slice whose base commit its name carries, in log order; asking for the slice as of a timestamp returns the slice with the greatest commit not after it, with its base and log files, or none if every slice is later. Adding the same base commit twice, or a log file without its base, is an error and never silently replaces or drops data.",
  ["inputs", "histories"], "every sequence of base/log file additions and every as-of timestamp of the same precision",
  "The tests add two base files and ask three timestamps.",
  ["file_group/mod.rs", "file_group/file_slice.rs"],
  [("slices by commit time", "file_group/mod.rs FileGroup::add_base_file / add_log_file"), ("as-of lookup", "file_group/mod.rs FileGroup::get_file_slice_as_of"), ("merging groups", "file_group/mod.rs FileGroup::merge")],
  state=[{"name": "file_slices", "meaning": "slices of the group keyed by base commit timestamp", "where": C + "file_group/mod.rs"}],
  observe=["FileGroup::get_file_slice_as_of", "FileGroup::add_base_file", "FileGroup::add_log_file"])
p("C05", "A snapshot or time-travel read sees each live file group once, as of its time",
  "The file slices a snapshot query plans are, for every table, one slice for each file group that has data as of the query time in the partitions selected: the newest slice not after that time. File groups replaced by a replace commit completed at or before the query time are absent, groups replaced only later are present. Files written by commits that are not completed on the timeline contribute nothing. Reading the snapshot returns the records of each of these slices as of that time, and nothing else.",
  ["histories", "inputs"], "every history of inserts, updates, replaces (insert overwrite, delete partition, clustering) and pending writes; every as-of time; any partition layout",
  "The tests query about fifteen fixture tables at one or two times each.",
  ["table/mod.rs", "table/fs_view.rs", "table/listing.rs", "timeline/mod.rs", "file_group/mod.rs", "file_group/builder.rs"],
  [("view of file groups", "table/fs_view.rs FileSystemView::get_file_slices_as_of"), ("replaced groups", "timeline/mod.rs Timeline::get_replaced_file_groups_as_of"), ("entry point", "table/mod.rs Table::get_file_slices / get_file_slices_as_of / read_snapshot_as_of")],
  observe=["Table::get_file_slices", "Table::get_file_slices_as_of", "Table::read_snapshot_as_of"])
p("C06", "An incremental read covers exactly the changes in its time window",
  "For every history and every window (start, end], the file slices planned for an incremental query hold exactly the files that the write statistics of the completed commits in the window name - the log files and base files they write, and the base file a log file was written to, however old - one slice for each file group, its newest not after the window's end; file groups replaced by a commit in the window are left out. The write statistics of a commit are all taken into account, whatever their order and however many name the same file group. An incremental read returns, for each of these slices, its records in the window, and nothing else.",
  ["histories", "inputs"], "every sequence of commits with any write statistics, every window",
  "The tests run two windows over one fixture table.",
  ["table/mod.rs", "timeline/mod.rs", "file_group/builder.rs", "file_group/mod.rs"],
  [("groups changed in a window", "timeline/mod.rs Timeline::get_file_groups_between"), ("commit metadata to file groups", "file_group/builder.rs build_file_groups / build_replaced_file_groups"), ("union of groups", "file_group/builder.rs FileGroupMerger::merge")],
  observe=["Table::get_file_slices_between", "Table::read_incremental_records"])
p("C07", "Data file names are parsed exactly and reversibly",
  "A base file name is read as file id, write token, commit timestamp and extension, and a log file name as file id, base commit timestamp, version and write token, exactly when it has that form, and every component is the text that stands in the name. A name of another form is an error, never a panic and never a data file with invented components. Writing the parsed file back as a name gives the original name.",
  ["inputs"], "every string as a file name",
  "The tests parse under ten names; the statement is over all strings.",
  ["file_group/base_file.rs", "file_group/log_file/mod.rs"],
  [("base file names", "file_group/base_file.rs FromStr for BaseFile"), ("log file names", "file_group/log_file/mod.rs FromStr for LogFile"), ("formatting", "file_group/base_file.rs BaseFile::file_name, file_group/log_file/mod.rs LogFile::file_name")],
  observe=["BaseFile::from_str", "LogFile::from_str", "LogFile::file_name"])
p("C08", "Log files of a slice are ordered as they were written",
  "The log files of a file slice are ordered by base commit time, then numerically by version, then by write token, whatever the number of digits; the order is total and agrees with equality, so that no two distinct log files of a slice are confused and none is lost. Reading a slice applies its log files in this order.",
  ["inputs"], "every pair and triple of log file names; every set of log files added in any order",
  "The tests sort versions 1..3; ordering laws quantify over all triples.",
  ["file_group/log_file/mod.rs", "file_group/file_slice.rs"],
  [("order", "file_group/log_file/mod.rs Ord for LogFile"), ("equality", "file_group/log_file/mod.rs PartialEq for LogFile"), ("set of log files", "file_group/file_slice.rs FileSlice::log_files")],
  observe=["LogFile::cmp", "FileSlice::log_files", "FileGroup::add_log_file"])
p("C09", "A log file decodes to its blocks, or to an error - never to garbage",
  "For every byte string, reading it as a log file either yields the sequence of blocks it encodes (each with its format version, type, header, content and footer as written) or stops with an error or at the corrupt tail; it never panics, loops, or reserves memory out of proportion to the file. (How the Avro and Parquet libraries fail on a damaged schema or damaged content handed to them whole is theirs.) A block whose size fields do not fit the file, whose type, format version or content version is unknown, or whose framing magic is missing is not returned as data. A well-formed file of blocks the reader supports is read in full, without an error.",
  ["inputs", "fault_sequences"], "every byte string up to any length: well-formed files, truncations and corruptions at every position",
  "The tests decode three fixture log files that are well formed.",
  ["file_group/log_file/reader.rs", "file_group/log_file/log_block.rs", "file_group/log_file/log_format.rs", "file_group/log_file/content.rs", "file_group/log_file/avro.rs"],
  [("block framing", "file_group/log_file/reader.rs LogFileReader::read_next_block / read_block"), ("block types, headers", "file_group/log_file/log_block.rs"), ("format versions", "file_group/log_file/log_format.rs LogFormatVersion"), ("content decoding", "file_group/log_file/content.rs Decoder")],
  observe=["LogFileReader::read_all_blocks", "LogFileReader::read_all_blocks_with_range"])
p("C10", "Scanning log files applies rollbacks and the time window exactly",
  "Scanning the log files of a slice returns the data blocks whose instant lies in the query's time window and was not rolled back by a rollback command block found in any of the scanned files, in file order and block order; command blocks themselves and blocks of rolled-back instants contribute nothing, and no other block is dropped. A block the reader cannot apply (a delete or an unsupported one) that would have to be applied is an error, never silently ignored.",
  ["histories", "inputs"], "every set of log files with any interleaving of data, delete and rollback blocks, every instant window",
  "The tests scan one fixture with one rollback.",
  ["file_group/log_file/scanner.rs", "file_group/log_file/reader.rs", "file_group/log_file/log_block.rs", "timeline/selector.rs"],
  [("scan", "file_group/log_file/scanner.rs LogFileScanner::scan"), ("rollback target", "file_group/log_file/log_block.rs LogBlock::target_instant_time"), ("per-block window", "file_group/log_file/reader.rs LogFileReader::should_skip_block")],
  observe=["LogFileScanner::scan", "Table::read_snapshot"])
p("C11", "Merging keeps exactly one, the newest, record per key",
  "Merging the records of a file slice under the overwrite-with-latest strategy yields, for every batch contents and any split into batches, exactly one row for each record key: a row with the greatest ordering (precombine) value, ties going to the greater commit sequence number. Row contents are never mixed between records. Under append-only no row is dropped, altered or duplicated. The order of the rows is not specified, and delete records are refused by the reader (see C10).",
  ["inputs", "histories"], "every sequence of data and delete batches, any keys, ordering values and commit times, nulls, any batch splits",
  "The tests merge batches of up to five rows.",
  ["merge/record_merger.rs", "util/arrow.rs", "file_group/reader.rs"],
  [("merge", "merge/record_merger.rs RecordMerger::merge_record_batches")],
  observe=["RecordMerger::merge_record_batches", "FileGroupReader::read_file_slice", "Table::read_snapshot"])
p("C12", "A file slice read returns exactly the rows in the commit window",
  "Reading a file slice for a query with a commit-time window returns the merge of exactly those of the slice's records whose commit time is after the window's start and not after its end, and, without a start, all records of the slice as of the end; a table without meta fields is not filtered. In read-optimized mode, exactly the base file's rows are returned and no log file is consulted.",
  ["inputs", "configurations"], "every base file contents and every window (absent, one-sided, two-sided), both read modes, both settings of meta fields",
  "The tests read two fixture files with one window.",
  ["file_group/reader.rs"],
  [("row mask", "file_group/reader.rs FileGroupReader::create_filtering_mask_for_base_file_records"), ("base/merged choice", "file_group/reader.rs FileGroupReader::read_file_slice")],
  observe=["FileGroupReader::read_file_slice_by_base_file_path", "FileGroupReader::read_file_slice", "Table::read_incremental_records"], hook=None)
p("C13", "Partition pruning never drops a matching partition",
  "For every partition schema, path layout (hive-style or not, url-encoded or not) and set of partition filters, a partition whose values satisfy every filter is read, and one whose values violate a filter is not; values are compared in the partition column's type. A path or value that cannot be interpreted is read rather than dropped. A filter on a column that is no partition column is refused, never taken to prune.",
  ["inputs", "configurations"], "every partition path, typed partition schema, and conjunction of =, !=, <, <=, >, >= filters",
  "The tests prune three partitions with two filters.",
  ["table/partition.rs", "expr/filter.rs", "table/listing.rs", "table/mod.rs"],
  [("decide a path", "table/partition.rs PartitionPruner::should_include"), ("parse path", "table/partition.rs PartitionPruner::parse_segments"), ("typed comparison", "expr/filter.rs SchemableFilter::apply_comparsion"), ("recursive pruning", "table/listing.rs FileLister::list_relevant_partition_paths")],
  observe=["PartitionPruner::should_include", "Table::get_file_slices", "Table::read_snapshot"])
p("C14", "Filter expressions mean what they say",
  "Every filter built from a column, an operator token and a literal keeps exactly the meaning of the comparison written: each operator has one token and is read back from it, the negation of an operator accepts exactly what the operator rejects and negating twice restores it, and a filter built through the API equals the one built from its textual triple. Unknown operators are errors. Evaluating a filter over a column returns, for each row, the truth of that comparison with the literal converted to the column's type.",
  ["inputs"], "every operator, column type, literal and column contents",
  "The tests check each token once and one comparison.",
  ["expr/mod.rs", "expr/filter.rs"],
  [("operators", "expr/mod.rs ExprOperator"), ("filters", "expr/filter.rs Filter, SchemableFilter")],
  observe=["ExprOperator::from_str", "ExprOperator::negate", "Filter::try_from", "SchemableFilter::apply_comparsion"])
p("C15", "DataFusion pushdown never loses or invents rows",
  "For every SQL predicate, the filters the table provider pushes to the storage scan are implied by the predicate, so that no row satisfying the predicate is lost, and a predicate reported as exactly handled is fully enforced; a comparison keeps its direction whichever side the column is on. A filter that cannot prune partitions (on another column, or with a literal whose text does not denote its value) is left to the engine and does not fail the query. The scan reads the file of every file slice planned, and the rows returned for a query with the predicate are exactly the table's rows satisfying it.",
  ["inputs", "programs"], "every predicate expression tree over the table's columns",
  "The tests convert about ten expressions and compare a few query results.",
  ["crates/datafusion/src/util/expr.rs", "crates/datafusion/src/lib.rs"],
  [("expression conversion", "crates/datafusion/src/util/expr.rs exprs_to_filters"), ("pushdown support", "crates/datafusion/src/lib.rs HudiDataSource::supports_filters_pushdown"), ("scan", "crates/datafusion/src/lib.rs HudiDataSource::scan")],
  observe=["exprs_to_filters", "TableProvider::scan", "SessionContext::sql"])
p("C16", "Splitting a plan partitions its file slices",
  "Dividing the file slices of a query into n parts puts every slice into exactly one part, keeps their order, and makes no empty part; no more than n parts are made, their sizes differ by no more than rounding, and n = 0 behaves as one part. This holds for any number of slices and parts.",
  ["inputs", "configurations"], "every number of slices and every n",
  "The tests try three pairs of sizes.",
  ["table/mod.rs"],
  [("splits API", "table/mod.rs Table::get_file_slices_splits_internal")],
  observe=["Table::get_file_slices_splits", "Table::get_file_slices_splits_as_of", "Table::get_file_slices_splits_between"])
p("C17", "Configuration is parsed and layered predictably",
  "Reading a configuration file or option set yields, for every text, exactly the key/value pairs written (comments and blank lines ignored, separators and surrounding spaces removed), and a typed option yields its parsed value, its documented default when absent, and an error when malformed. A hoodie.properties value of the table takes precedence over an option given by the caller, that over an environment variable for the storage, and that over the global defaults file; values the reader cannot support are refused when the table is opened. Options given for reading a file group override those of its table. A table opened through any entry point (a constructor, the builder, SQL's CREATE EXTERNAL TABLE, whose options override the session's) gets exactly the options given to it.",
  ["inputs", "configurations"], "every configuration text and every combination of option sources",
  "The tests parse one properties file and a few options.",
  ["config/util.rs", "config/mod.rs", "config/table.rs", "config/read.rs", "config/internal.rs", "table/builder.rs", "table/mod.rs", "crates/datafusion/src/lib.rs"],
  [("text to pairs", "config/util.rs parse_data_for_options"), ("typed options", "config/table.rs, config/read.rs ConfigParser::parse_value"), ("layering", "table/builder.rs TableBuilder / OptionResolver::resolve_options"), ("validation", "table/mod.rs / builder.rs validate_configs")],
  observe=["HudiConfigs::get_or_default", "TableBuilder::build", "Table::hudi_options"])
p("C18", "Storage paths stay under the table and listings are complete",
  "A relative path given to the table's storage is resolved under the table's base location by appending its segments, whatever characters they contain, with no segment lost, merged or escaped twice; reading gives the bytes of exactly that file. Listing a directory returns exactly its files and its subdirectories, and the leaf directory search returns exactly the deepest directories below a path.",
  ["inputs"], "every base URL and segment list; every directory tree",
  "The tests join a few literal URLs and list one tree.",
  ["storage/mod.rs", "storage/util.rs", "storage/file_metadata.rs"],
  [("join", "storage/util.rs join_url_segments"), ("base URI", "storage/util.rs parse_uri"), ("listing", "storage/mod.rs Storage::list_files / list_dirs"), ("leaf directories", "storage/mod.rs get_leaf_dirs")],
  observe=["Storage::get_file_data", "Storage::list_dirs", "Storage::list_files", "get_leaf_dirs"])
p("C19", "Avro log records become Arrow rows with the same values",
  "For every record written to an Avro log block, the Arrow row has, column by column and at every depth, the value of the record's field, with nulls exactly where the Avro value is null; row count and order are preserved. This covers null, boolean, numbers, strings, bytes, enums, fixed, uuid, dates, times and timestamps (local ones too), nested records, and lists of nulls, booleans, numbers, strings, enums, records and lists, each also as a union with null. An Avro schema maps to the Arrow schema with the corresponding names, types and nullability. Records of any other schema (maps, decimals, durations, unions of several types, references, lists of other elements) are reported as an error: never a wrong value, never an abort.",
  ["inputs"], "every Avro schema and every list of records of it",
  "The tests decode one fixture's records and a two-field record.",
  ["avro_to_arrow/arrow_array_reader.rs", "avro_to_arrow/schema.rs", "avro_to_arrow/mod.rs", "file_group/log_file/avro.rs"],
  [("records to arrays", "avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::next_batch / build_struct_array"), ("nested lists", "avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::build_nested_list_array"), ("where fields are found", "avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::schema_lookup"), ("schema", "avro_to_arrow/schema.rs to_arrow_schema")],
  observe=["AvroArrowArrayReader::next_batch", "to_arrow_schema", "LogFileScanner::scan"])
p("C20", "Hudi meta fields have fixed names and positions",
  "The meta field names are the fixed Hudi ones, each meta field has one name and is read back from it, and its index is its position in the leading columns of a table's schema. The meta field schema lists the first five of them, and the one with the operation field all six, in that order, as strings that are never null. Any other name is not a meta field.",
  ["inputs"], "every field name and every schema",
  "The tests check each name once.",
  ["metadata/meta_field.rs", "table/mod.rs"],
  [("names", "metadata/meta_field.rs MetaField"), ("schema", "metadata/meta_field.rs MetaField::schema")],
  observe=["MetaField::from_str", "MetaField::field_index", "MetaField::schema"])
p("C21", "Listing a partition finds every data file and only data files",
  "Listing a partition directory groups exactly its base files and log files into file groups by file id, whatever other files (markers, partition metadata, checksums, CDC logs, hidden files, foreign formats) lie beside them and in whatever order they are listed; every base file becomes a slice, and every log file of a file group with base files is attached to its base file's slice or, when it has none, reported as an error. Files of one file id never end up in another group.",
  ["inputs"], "every directory contents and listing order",
  "The tests list three fixture partitions.",
  ["table/listing.rs", "file_group/builder.rs", "file_group/base_file.rs", "file_group/log_file/mod.rs"],
  [("list a partition", "table/listing.rs FileLister::list_file_groups_for_partition"), ("classify files", "table/listing.rs FileLister::should_exclude_for_listing")],
  observe=["FileLister::list_file_groups_for_partition", "Table::get_file_slices"], hook="hudi_core::table::verif_hooks re-exports the listing module")
p("C22", "The table's schema is that of its latest commit with files",
  "The schema a table reports is the one stored in a base file named by the latest completed commit that wrote any file: for some partition with write statistics in that commit's metadata, the file the first statistic names as its path when that is a parquet file, otherwise its base file under the partition's path. Commits that wrote no file (empty commits, deletions of partitions) do not change it. When no commit wrote a file, or the metadata or the file does not give a schema, asking for it is an error, never an empty schema or another commit's. The partition schema is the configured partition fields that schema has, in their configured order. The Avro schema is the one the latest completed commit records. The clustering commits are the completed replace commits whose operation is clustering, in the requested order.",
  ["histories", "inputs"], "every timeline of completed and pending instants with any commit metadata: empty commits, several partitions, base and log file statistics, missing and malformed entries; every configured list of partition fields",
  "The tests read the schema of fixture tables whose latest commit wrote a base file; empty latest commits, log files and partitions without statistics are sampled at most once.",
  ["timeline/mod.rs", "table/mod.rs"],
  [("latest commit with files", "timeline/mod.rs Timeline::get_latest_commit_metadata_with_writes"), ("schema of the table", "timeline/mod.rs Timeline::get_latest_schema"), ("partition schema", "table/mod.rs Table::get_partition_schema"), ("Avro schema", "timeline/mod.rs Timeline::get_latest_avro_schema"), ("clustering commits", "timeline/mod.rs Timeline::get_completed_clustering_commits")],
  observe=["Table::get_schema", "Table::get_avro_schema", "Table::get_partition_schema", "Timeline::get_completed_clustering_commits"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"]) > 80]
