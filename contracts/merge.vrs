//@include merge.inc
verus! { broadcast use {group_vx_str, group_vx_parse}; }
