#![allow(dead_code)]
use mini::*;
#[derive(PartialEq, Debug)]
struct P(u8, u8);
#[derive(Deserialize, PartialEq, Debug)]
struct Q { x: u8, y: u8 }
impl From<Q> for P { fn from(q: Q) -> P { P(q.x, q.y) } }
#[derive(Deserialize, PartialEq, Debug)]
struct Rec { a: u8, #[serde(flatten, proxy = Q)] p: P }
fn main() { reads!(Rec, "{\"y\":2,\"a\":0,\"x\":1}", Rec { a: 0, p: P(1, 2) }); reads!(Rec, "[7,8,9]", Rec { a: 7, p: P(8, 9) }); }
