pub mod bloom;
pub mod builds;
pub mod c01;
pub mod codec;
pub mod enc;
pub mod foreign;
pub mod hostile;
pub mod meta;
pub mod misuse;
pub mod reuse;
pub mod schema;
pub mod select;
pub mod serial;
pub mod stats;
pub mod threads;
pub mod transport;
use crate::rt::Prop;
pub fn all() -> Vec<Prop> {
    vec![
        c01::prop(),
        transport::prop02(),
        c01::prop_layout(),
        codec::prop(),
        enc::prop05(),
        enc::prop06(),
        enc::prop07(),
        enc::prop08(),
        stats::prop09(),
        stats::prop10(),
        select::prop11(),
        select::prop12(),
        schema::prop13(),
        schema::prop14(),
        meta::prop15(),
        bloom::prop16(),
        hostile::prop17(),
        hostile::prop18(),
        hostile::prop19(),
        transport::prop20(),
        transport::prop21(),
        reuse::prop22(),
        select::prop23(),
        foreign::prop(),
        threads::prop(),
        misuse::prop26(),
        serial::prop27(),
        builds::prop(),
    ]
}
