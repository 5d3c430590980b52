// Each digital module alone: C03, C04, C09.
use vstd::prelude::*;
use vstd::std_specs::iter::*;

//@include common
//@include digital_body

fn main() {}
