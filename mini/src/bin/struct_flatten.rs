#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct I { x: u8, y: u8 }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Rec { a: u8, #[serde(flatten)] i: I, b: u8 }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct G<T> { #[serde(flatten)] t: T, c: u8 }
fn main() {
    both!(Rec, Rec { a: 1, i: I { x: 2, y: 3 }, b: 4 }, "{\"a\":1,\"x\":2,\"y\":3,\"b\":4}");
    reads!(Rec, "[1,2,3,4]", Rec { a: 1, i: I { x: 2, y: 3 }, b: 4 });
    both!(G<I>, G { t: I { x: 1, y: 2 }, c: 3 }, "{\"x\":1,\"y\":2,\"c\":3}");
    both!(G<()>, G { t: (), c: 3 }, "{\"c\":3}");
}
