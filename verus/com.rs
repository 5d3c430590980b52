// The message processor alone: C11, C12, C13.
use vstd::prelude::*;
use vstd::std_specs::iter::*;

//@include common
//@include com_body

fn main() {}
