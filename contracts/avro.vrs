//@include avro.inc
verus! { broadcast use {group_vx_str}; }
