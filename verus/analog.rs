// Each analog module alone: C05, C06, C07, C14.
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::slice::slice_subrange;

//@include common
//@include analog_body

fn main() {}
