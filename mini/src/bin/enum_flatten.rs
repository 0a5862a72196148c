#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { A { x: u8 }, B }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Rec { a: u8, #[serde(flatten)] e: E, b: u8 }
fn main() {
    both!(Rec, Rec { a: 1, e: E::A { x: 2 }, b: 3 }, "{\"a\":1,\"type\":\"A\",\"x\":2,\"b\":3}");
    both!(Rec, Rec { a: 1, e: E::B, b: 3 }, "{\"a\":1,\"type\":\"B\",\"b\":3}");
}
