#![allow(dead_code)]
use mini::*;
#[derive(PartialEq, Debug, Default)]
struct P(u32);
impl From<u8> for P { fn from(x: u8) -> P { P(x as u32 + 100) } }
#[derive(Deserialize, PartialEq, Debug)]
struct Rec { #[serde(proxy = u8)] a: P, #[serde(proxy = u8, default)] b: P }
fn main() {
    reads!(Rec, "{\"a\":1,\"b\":2}", Rec { a: P(101), b: P(102) });
    reads!(Rec, "{\"a\":1}", Rec { a: P(101), b: P(0) });
    fails!(Rec, "{\"a\":300}");
}
