// The serial module alone: C10.
use vstd::prelude::*;
use vstd::std_specs::iter::*;

//@include common
//@include frames_body

fn main() {}
