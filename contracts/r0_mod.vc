@@file phlite/src/reduction/mod.rs reduction
@@use
use crate::prelude::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::models::*;
use vstd::std_specs::cmp::*;
@@attr Diagram :: #[verifier::reject_recursive_types(T)]
