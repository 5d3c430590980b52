// The frequency counter alone: C08.
use vstd::prelude::*;
use vstd::std_specs::iter::*;

//@include common
//@include fcnt_body

fn main() {}
