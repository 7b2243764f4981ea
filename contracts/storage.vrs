//@include storage.inc
verus! { broadcast use {group_vx_str}; }
