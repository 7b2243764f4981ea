# Which contract units and which concrete search decide each property.
CHRONO = ["chrono: NaiveDateTime::parse_from_str(\"%Y%m%d%H%M%S\") on 14 digits is the civil calendar; with_nanosecond/timestamp_millis are arithmetic; the local time zone is an uninterpreted partial function"]
STD = ["std string, slice, sort and iterator methods do what their contracts in contracts/prelude.rs say (each shim names the std call it stands for)"]
SEQ = ["async functions are read as sequential code (.await removed); log macros dropped"]
COLL = ["HashMap, HashSet, BTreeMap, BTreeSet and DashMap do what contracts/collections.rs and table.inc say"]
LISTPAR = ["futures: stream::iter, map, buffer_unordered and try_for_each run the closures on every item, in some order, and stop at an error; DashMap keeps what is inserted"]

PROPS = {
    "C01": {"units": ["timeline"], "harness": "core", "covers": "Action/State/Instant name parsing and formatting, timestamp validation and conversion, in full; name_injective lemma", "assumptions": CHRONO + STD,
            "note": "All obligations of the timeline unit discharged by Verus for every string; chrono and std string functions by assumed contract. A bounded concrete search on the compiled crate runs besides and gives replays."},
    "C02": {"units": ["timeline"], "harness": "core", "covers": "Timeline::load_instants, new_from_storage, get_completed_*, latest commit, Instant order", "assumptions": CHRONO + STD + SEQ + ["Storage::list_files returns the directory's files (C18)"],
            "note": "Proved over every directory listing, given the contract of Storage::list_files and of std sort; async read as sequential."},
    "C03": {"units": ["timeline"], "harness": "core", "covers": "TimelineSelector (all constructors, get_timezone_from_configs, try_create_instant, select), InstantRange", "assumptions": CHRONO + STD,
            "note": "Proved for every sorted timeline and every pair of bounds; partition_point and filter by assumed contract."},
    "C04": {"units": ["file_group"], "harness": "core", "covers": "FileGroup (new, new_with_base_file_name, eq, hash, add_base_file(s)(_from_name), add_log_file(s)(_from_name), merge, get_file_slice_as_of, get_file_slice_mut_as_of), FileSlice (new, merge, eq, has_log_file)", "assumptions": STD + ["a Hasher's result is a function of what it was fed; BTreeMap/BTreeSet do what contracts/collections.rs says (map and ordered set)"],
            "note": "All obligations discharged by Verus for every sequence of additions; the collections are by assumed contract."},
    "C05": {"units": ["table"], "harness": "core", "budget": 60, "covers": "Table (read_snapshot, read_snapshot_as_of, read_snapshot_internal, read_incremental_records); Table::get_file_slices, get_file_slices_as_of, get_file_slices_internal; Timeline::get_replaced_file_groups_as_of, get_instant_metadata, Instant::relative_path; build_replaced_file_groups; FileSystemView::load_file_groups, collect_file_slices_as_of, get_file_slices_as_of; FileSystemView::new; FileLister::new, list_relevant_partition_paths, list_file_groups_for_partition, list_file_groups_for_relevant_partitions; FileSlice::load_metadata_if_needed; FileGroup/FileSlice", "assumptions": STD + SEQ + COLL + LISTPAR + ["PartitionPruner::should_include is a function of the path (C13)"],
            "note": "Every obligation of the table unit discharged by Verus: the plan is one slice, the newest not after the time, of each file group of the listed partitions that no replace commit up to then replaces. Uncommitted files are a known finding; rows are compared by the bounded search over generated tables."},
    "C06": {"units": ["table"], "harness": "core", "budget": 60, "covers": "Table (read_snapshot, read_snapshot_as_of, read_snapshot_internal, read_incremental_records); Table::get_file_slices_between(_internal), Timeline::get_file_groups_between, build_file_groups, build_replaced_file_groups, FileGroupMerger::merge, FileGroup::merge, FileSlice::merge", "assumptions": STD + SEQ + COLL,
            "note": "Proved for every timeline and commit metadata: the groups planned are exactly those of the write stats of the window's commits less the replaced ones, and their union loses and invents no slice or log file. Bounded search over generated tables besides."},
    "C07": {"units": ["names"], "harness": "core", "covers": "BaseFile and LogFile: parse_file_name, from_str, try_from, file_name, eq; uniqueness and round-trip lemmas", "assumptions": STD,
            "note": "Every obligation of the names unit discharged by Verus for every string; std string functions by assumed contract."},
    "C08": {"units": ["names"], "harness": "core", "covers": "Ord/PartialOrd/PartialEq for LogFile; lemmas: total order, numeric versions, equal exactly for equal names", "assumptions": STD + ["BTreeSet keeps its elements in the order of Ord::cmp and holds one of each"],
            "note": "The comparison is proved equal to the write order for all log files, and that order proved total, numeric and consistent with equality."},
    "C09": {"units": ["log"], "harness": "core", "covers": "LogFormatVersion, BlockType, BlockMetadataKey (try_from, has_*); LogFileReader (new, read_magic, read_block_length, create_corrupted_block_if_needed, read_block_length_or_corrupted_block, read_log_format_version, read_block_type, read_block_metadata, read_total_block_length, should_skip_block, read_next_block, read_all_blocks); Decoder (new, content, check_consumed, decode_content, skip_content, decode_avro_record_content, decode_parquet_record_content); AvroDataBlockContentReader (new, next); LogBlock accessors", "assumptions": STD + SEQ + ["std::io: read_exact, read_to_end, take, by_ref and stream_position do what the contracts in contracts/log.inc say; StorageReader stands on the bytes of the file, and reading from them fails only at their end", "apache-avro: from_avro_datum decodes a datum at the reader's place and reserves no memory out of proportion (its own cap is 512 MB); parquet and arrow: batches yielded hold the records of the content in order, and an error means that the content cannot be decoded", "AvroArrowArrayReader yields the records its reader yields, and ends only after the last of them (C19)", "generic readers are checked at the instance used (impl Read -> &mut Take<&mut StorageReader>)"],
            "note": "Proved for every byte string: what is returned as blocks is exactly what the bytes encode, every read stays within the file, no arithmetic overflows, and every loop ends. The libraries decoding Avro and Parquet content are by assumed contract; the search feeds damaged files to the compiled crate."},
    "C10": {"units": ["log", "timeline"], "harness": "core", "covers": "LogFileScanner (new, scan), LogFileReader (read_all_blocks, read_next_block, should_skip_block), LogBlock (instant_time, target_instant_time, command_block_type), CommandBlock::from_str, InstantRange", "assumptions": CHRONO + STD + SEQ + COLL + ["assumptions of C09"],
            "note": "Proved for every set of files: the batches returned are those of the blocks in the window whose instant no rollback block of any of the files targets, in order, and a block that cannot be applied is an error."},
    "C11": {"units": ["merge"], "harness": "core", "covers": "RecordMerger::merge_record_batches, select_columns, RecordMergeStrategyValue::from_str, lexsort_to_indices, RecordBatch::get_array, get_string_array; lemma_latest, lemma_onto, lemma_permuted", "assumptions": STD + SEQ + COLL + ["arrow: concat_batches puts columns together by place, take_record_batch and project pick rows and columns; the row format of a column's type compares as the values do, nulls first, and takes the precombine column's type", "slice::sort_unstable_by gives a permutation in the order of a total comparison", "HudiConfigs::get/get_or_default give the options' values (C17)", "the batches of one slice hold at most 2^32 - 1 rows; record keys are not null"],
            "note": "Proved for every schema, every number of batches and rows and every set of values: nothing is lost or invented, and of each record the row kept is one no other row of it is newer than. Sequence numbers compare as text."},
    "C12": {"units": ["reader", "timeline", "config", "table", "storage"], "harness": "core", "covers": "FileGroupReader (new_with_configs_and_options, new_with_options, create_filtering_mask_for_base_file_records, read_file_slice_by_base_file_path, create_instant_range_for_log_file_scan, read_file_slice), to_millis_precision, FileSlice (has_log_file, relative_path_for_file, base_file_relative_path, log_file_relative_path), Table (create_file_group_reader_with_options, read_snapshot, read_snapshot_as_of, read_snapshot_internal, read_incremental_records), Storage::get_parquet_file_data, InstantRange, SchemableFilter, Filter; lemma_window (the window on text is the window on points in time), lemma_log_paths", "assumptions": CHRONO + STD + SEQ + COLL + ["arrow: boolean `and`, filter_record_batch, column_by_name and the comparison kernels do what the contracts in contracts/reader.inc and expr.inc say; texts compare by code point", "parquet: the stream over a file gives its record batches in order and ends after the last one or after a failure; LogFileScanner::scan and RecordMerger::merge_record_batches do what they are proved to do in the log unit (C10) and the merge unit (C11)", "HudiConfigs gives the options' values (C17)", "std PathBuf::join joins with one slash", "futures::try_join_all gives the results in order, or an error of one of them"],
            "note": "Proved for every base file, window and option: the rows read from the base file are exactly those in the window, log files are scanned oldest first over the same window, exactly the base file is read in read-optimized mode, and what is returned is the merge of both."},
    "C13": {"units": ["partition"], "harness": "core", "covers": "is_table_partitioned; PartitionPruner (new, empty, is_empty, url_decode, split_path, parse_segments, should_include); SchemableFilter, Filter, ExprOperator; never_drops_matching lemma", "assumptions": STD + COLL + ["arrow: casts, comparison kernels and schemas as for C14; percent_encoding::percent_decode(..).decode_utf8() is a function of the text, failing on what is no UTF-8", "HudiConfigs::try_get returns the option's parsed value (C17); Table::get_partition_schema yields the partition fields in their configured order (C22)"],
            "note": "Proved for every path, schema and filter list: an unreadable path is kept, a path is dropped only when a filter is not satisfied by the value it gives, and is kept only when all are. Partition values a key generator transforms (TimestampBasedKeyGenerator) are out of scope."},
    "C14": {"units": ["expr"], "harness": "core", "covers": "ExprOperator (Display, TOKEN_OP_PAIRS, negate, from_str), Filter (negate, From/TryFrom triples), from_str_tuples, FilterField and col, SchemableFilter (try_from, cast_value, apply_comparsion); negate_involutive, writes_unique, evaluate lemmas", "assumptions": STD + ["arrow: the six comparison kernels compare row by row by one total order per type, null rows give null; cast_with_options(safe=false) converts every string or fails; Schema::field_with_name finds the first field of that name"],
            "note": "Every obligation discharged by Verus for every string, operator and column; what arrow's casts and kernels compute is by assumed contract, and the search compares them over nine types with an independent oracle."},
    "C15": {"units": ["pushdown"], "harness": "df", "budget": 40, "covers": "exprs_to_filters, binary_expr_to_filter, literal_to_string, not_expr_to_filter; HudiDataSource (get_input_partitions, retain_partition_filters, can_push_down, is_supported_operator, is_supported_operand, supports_filters_pushdown, scan, schema); get_scheme_authority, StrTupleRef::as_strs; Filter, ExprOperator, SchemableFilter, FileSlice::base_file_relative_path; lemma no_row_lost", "assumptions": STD + SEQ + COLL + ["DataFusion: comparisons, AND, OR, NOT and BETWEEN have SQL's three-valued meaning; its coercion gives a literal compared with a column the column's type; Operator::swap mirrors comparisons; FileScanConfig and ParquetExecBuilder keep what they are given; create_physical_expr keeps an expression's meaning; ListingTableUrl::parse(url).prefix() is the place the url names", "the text of a non-null boolean, integer, float, string or 32-bit date casts back to the same value (searched)", "Table::get_file_slices_splits leaves out a live slice only when a filter is false of all its rows (C05, C13, C16); Table::get_partition_schema gives the partition columns (C22); join_url_segments is as in C18", "std::thread::spawn/join and tokio's block_on run what they are handed to its end", "the engine itself (parquet reader, filter operator) is only searched"],
            "note": "Proved for every expression tree and every table: each pushed filter follows from a conjunct of the query, each pushed filter applies to the partition columns, no filter is reported as exact, the scan reads the base file of every slice planned at its place, keeps projection and limit, and its predicate follows from the query's. Whole SQL queries are searched."},
    "C16": {"units": ["table"], "harness": "core", "budget": 60, "covers": "Table::get_file_slices_splits, get_file_slices_splits_as_of, get_file_slices_splits_internal; lemma_split (parts are the plan's slices in order, none empty, at most max(1,n), equal but the last)", "assumptions": STD + SEQ + ["slice::chunks(n) yields consecutive chunks of n, the last possibly shorter; usize::div_ceil rounds up"],
            "note": "Proved for every number of slices and parts; the search runs real tables of up to 40 file groups and every n around them."},
    "C17": {"units": ["config"], "harness": "core", "covers": "parse_data_for_options; ConfigParser::parse_value of HudiTableConfig, HudiReadConfig and HudiInternalConfig, default_value, parse_value_or_default, HudiConfigs (validate, contains, try_get, get, get_or_default, as_options), HudiConfigValue::to; RecordMerger::validate_configs; TableBuilder (validate_configs, extend_if_absent, resolve_user_provided_options, resolve_cloud_env_vars, imbue_table_properties, imbue_global_hudi_configs_if_absent, resolve_hudi_options, resolve_options, build, from_base_uri, with_option(s), with_hudi_option(s), with_storage_option(s)); Table (new, new_with_options); HudiDataSource (new, new_with_options); HudiTableFactory (resolve_options, create); FileGroupReader (new_with_configs_and_options, new_with_options); Table::create_file_group_reader_with_options; split_hudi_options_from_others; lemma_precedence, lemma_user_first", "assumptions": STD + COLL + ["the environment does not change during a call and its entries are UTF-8", "strum's EnumIter yields every variant", "Storage reads a file's bytes by contract (C18)", "the with_* methods of TableBuilder are verified as the extractor expands the macro_rules that makes them (identifiers, one repetition, paste names)", "DataFusion: ConfigOptions::entries lists the session's settings"],
            "note": "Every obligation of the config unit discharged by Verus for every text and every combination of sources. Two-sided: opening a table or a file group's reader fails only when its storage does not open, its hoodie.properties cannot be read, an option is refused, or its timeline cannot be loaded. Java-properties escapes are out of scope."},
    "C18": {"units": ["storage"], "harness": "core", "covers": "parse_uri, join_url_segments, HudiConfigValue::to_url, FileMetadata::new, Storage (new, get_file_data, get_file_data_from_absolute_path, get_file_metadata, get_parquet_file_metadata, get_parquet_file_schema, get_parquet_file_data, get_storage_reader, list_dirs_as_obj_paths, list_dirs, list_files), get_leaf_dirs, StorageReader (new, read, seek); lemma_child, lemma_spot (a path leads to the base's levels followed by its own)", "assumptions": STD + SEQ + ["url crate: path_segments_mut().pop/pop_if_empty/extend edit the list of decoded levels; Url::path() re-parsed by object_store::path::Path gives these levels", "object_store lists a directory by its direct files and directories and returns the bytes of the file asked for; its listing of a finite tree is well-founded", "std PathBuf::push joins with one slash; BufReader over Cursor reads and seeks in its bytes", "parquet and arrow: footer, schema and record batches are functions of the file's bytes; concat_batches gives the rows of the batches in order"],
            "note": "Every obligation discharged by Verus for every path and every tree. Control characters are refused; names ending in '#digits' (hidden by object_store's local file system) or looking like a drive letter are out of scope. Two-sided: a failure means the base takes no names, the path is refused, the store fails there, or (for Parquet reads) the file is no sound Parquet file."},
    "C19": {"units": ["avro"], "harness": "core", "covers": "to_arrow_schema, schema_to_field(_with_props), default_field_name; AvroArrowArrayReader (try_new, schema_lookup, child_schema_lookup, next_batch, build_struct_array, build_nested_list_array, build_primitive_array, build_boolean_array, read_primitive_list_values, build_wrapped_list_array, build_string_dictionary_array, field_lookup); flatten_values, flatten_string_values, resolve_boolean, resolve_string, resolve_bytes, resolve_u8, resolve_fixed, resolve_item, Resolver::resolve, maybe_resolve_union; lemma_row (a value of a schema is a row of the type it is read as), lemma_wf", "assumptions": STD + COLL + ["arrow: builders, ArrayData (with the conditions under which build accepts it) and RecordBatch::try_new do what contracts/avro.inc says", "apache_avro parses a schema into names without dots and a lookup of each record field's position, and decodes a datum into a value of that schema", "num_traits::NumCast keeps a number cast to its own type or to a wider integer", "a batch holds at most 2^31-1 elements of a list; a field's aliases are not names of other fields of its record; sizes of fixed types fit i32", "trusted: list_array_string_array_builder (unreachable from an Avro schema), build_dictionary_array (always an error for it), external_props (metadata only)"],
            "note": "Proved for every schema and every list of records: the batch has the columns the schema says and, column by column and at every depth, the records' values, with nulls where they are null; what cannot be read is an error. The search compares the compiled crate's rows with the records written."},
    "C20": {"units": ["meta"], "harness": "core", "covers": "MetaField: as_ref, fmt, from_str, field_index, SCHEMA, SCHEMA_WITH_OPERATION, schema, schema_with_operation; one_name lemma", "assumptions": STD + ["arrow Field::new and Schema::new keep what they are given; lazy_static evaluates its expression"],
            "note": "Every obligation discharged by Verus for every string."},
    "C21": {"units": ["table"], "harness": "core", "budget": 60, "covers": "FileLister::should_exclude_for_listing, list_file_groups_for_partition, list_relevant_partition_paths, list_file_groups_for_relevant_partitions, FileSystemView::new, load_file_groups; FileGroup::add_base_files/add_log_files", "assumptions": STD + SEQ + COLL + LISTPAR + ["Storage::list_files and get_leaf_dirs are as in C18"],
            "note": "Proved for every directory listing: every base file is a slice of its file id's group, every log file is attached to its base file's slice, and nothing else enters a group. A log file whose file id has no base file at all is left out (documented limitation, outside the statement)."},
    "C22": {"units": ["table", "storage"], "harness": "core", "covers": "Timeline (get_latest_commit_metadata, get_latest_commit_metadata_with_writes, has_write_stats, get_latest_avro_schema, get_latest_schema, get_completed_clustering_commits, get_instant_metadata, get_instant_metadata_in_json); Table (get_schema, get_avro_schema, get_partition_schema); Storage (get_parquet_file_metadata, get_parquet_file_schema); lemma_picked", "assumptions": STD + SEQ + COLL + ["serde_json reads the object a file's bytes hold; std PathBuf::join joins with one slash", "parquet: a file's footer and its schema are functions of its bytes; arrow Fields::find finds the first field of a name", "HudiConfigs::get_or_default gives the option's value (C17)"],
            "note": "Proved, errors included, for every timeline and all commit metadata: the schema is that of a base file the latest commit with files names, and it is an error exactly when there is none. Search over generated histories besides."},
}
NOT_APPLICABLE = {}
