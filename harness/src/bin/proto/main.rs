//! Monitors of the protocol schemes: commit-verify, embed, convolve, seals, validation.
//! C17, C18, C19, C20, C21, C22.
#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;

mod schemes;
mod seals;
mod valid;

fn main() {
    vmodel::runner::main(vec![schemes::c17(), schemes::c18(), schemes::c19(), seals::c20(), valid::c21(), valid::c22()]);
}
