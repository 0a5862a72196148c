#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "kind")]
enum E { A, B }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Rec { a: u8, #[serde(flatten)] e: E }
fn main() {
    both!(E, E::B, "{\"kind\":\"B\"}");
    both!(Rec, Rec { a: 1, e: E::A }, "{\"a\":1,\"kind\":\"A\"}");
}
