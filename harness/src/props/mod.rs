use crate::runner::Property;

mod checking;
mod convert;
mod faults;
mod matchers;
mod queries;
mod records;
mod robust;
mod settings;
mod stream;
mod tables;

pub use records::{gunzip_all, gzip_members};

pub fn all() -> Vec<Property> {
    vec![
        records::r01(),
        records::r02(),
        records::r03(),
        matchers::m01(),
        matchers::m02(),
        matchers::m03(),
        matchers::m04(),
        queries::p01(),
        queries::q01(),
        queries::f01(),
        robust::n01(),
        stream::c01(),
        stream::c02(),
        stream::c03(),
        stream::c04(),
        stream::c05(),
        stream::c06(),
        stream::c07(),
        stream::c08(),
        tables::c09(),
        tables::c10(),
        tables::c11(),
        convert::c12(),
        convert::c13(),
        tables::c14(),
        stream::c15(),
        checking::c16(),
        faults::c17(),
        settings::c18(),
        settings::c19(),
    ]
}
