// The process image alone: C17, C18.
use vstd::prelude::*;
use vstd::std_specs::iter::*;

//@include common
//@include image_body

fn main() {}
