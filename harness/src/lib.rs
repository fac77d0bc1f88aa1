#![allow(dead_code)]
mod sym;
mod gen;
mod fmt_rt;
mod num;
mod vals;
mod navs;
mod sers;
mod toks;
mod parses;
mod forms;
mod msgs;

/// Declares the harness entry points and the table the replay driver uses.
macro_rules! entries {
    ($($name:ident => $f:path;)*) => {
        $( #[no_mangle] pub extern "C" fn $name() { $f() } )*
        pub const ENTRIES: &[(&str, fn())] = &[ $( (stringify!($name), $f) ),* ];
    };
}
entries! {
    fmt_tree => fmt_rt::tree;
    fmt_str => fmt_rt::strings;
    fmt_barr => fmt_rt::barrs;
    fmt_names => fmt_rt::names;
    fmt_req => fmt_rt::requests;
    fmt_width => fmt_rt::widths;
    num_cmp => num::cmp;
    num_hash => num::hashes;
    num_prim => num::primitive;
    num_single => num::single;
    num_conv => num::conv;
    num_int_text => num::int_text;
    num_float_text => num::float_text;
    num_digits => num::digits;
    num_decimals => num::decimals;
    val_pairs => vals::pairs;
    val_triples => vals::triples;
    own_trees => vals::owner_trees;
    val_long => vals::long_pairs;
    own_long => vals::owner_long;
    own_vals => vals::owner_vals;
    val_names => vals::names;
    val_access => vals::access;
    val_fields => vals::fields;
    val_held => vals::held;
    nav_ok => navs::consistent;
    nav_keys => navs::keyed;
    ser_round => sers::round;
    ser_numbers => sers::round_numbers;
    ser_wide => sers::round_wide;
    ser_fits => sers::fits;
    ser_any_tree => sers::any_tree;
    ser_any_value => sers::any_value;
    ser_any_number => sers::any_number;
    ser_wrong_tree => sers::wrong_tree;
    ser_like => sers::like;
    ser_wrong_value => sers::wrong_value;
    ser_borrowed => sers::borrowed;
    ser_variant_keys => sers::variant_keys;
    tok_single => toks::single;
    tok_tuples => toks::tuples;
    tok_arrays => toks::arrays;
    tok_decodes => toks::decodes;
    par_free => parses::free;
    par_poke => parses::poke;
    par_wide => parses::wide;
    par_odd_names => parses::odd_names;
    par_layout => parses::layout;
    form_text => forms::text;
    form_req => forms::text_req;
    form_ways => forms::ways;
    form_nested => forms::nested;
    form_enc => forms::encode;
    form_single => forms::encode_single;
    form_made => forms::construct;
    msg_tree => msgs::tree;
    msg_contents => msgs::contents;
    msg_names => msgs::names;
    msg_requests => msgs::requests;
}
