// The coupler's registers alone: C01, C15, C16, C22.
use vstd::prelude::*;
use vstd::std_specs::iter::*;

//@include common
//@include lists_body

fn main() {}
