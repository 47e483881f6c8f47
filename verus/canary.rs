//! A false assertion over all library modules: the verifier must refuse it on every run.
use vstd::prelude::*;
use crate::prelude::*;
use crate::ints::*;
use crate::lawful::*;
use crate::lincomb::*;
use crate::iters::*;
use crate::heap::*;
use crate::models::*;
use crate::simplices::*;
verus! {
proof fn vp_canary_must_fail() {
    assert(false);
}
} // verus!
