//! Monitors of merklization, commitment engine, encodings, text forms and digests:
//! C09, C10, C11, C12, C14, C15, C16, C26, C27.
#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;

mod arte;
mod codec;
mod digest;
mod eng;
mod merk;
mod text;
mod types;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--decode-huge-block") {
        return codec::decode_huge_block();
    }
    vmodel::runner::main(vec![
        merk::c09(),
        merk::c10(),
        eng::c11(),
        eng::c12(),
        codec::c14(),
        codec::c15(),
        text::c16(),
        arte::c26(),
        digest::c27(),
    ]);
}
