//@include config.inc
verus! { broadcast use {group_vx_str, group_vx_parse, ax_map_items, ax_map_ref_items}; }
