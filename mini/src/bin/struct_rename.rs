#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Rec { #[serde(rename = "x-y")] a: u8, r#type: u8, #[serde(rename = "\"q\"")] c: u8 }
fn main() {
    both!(Rec, Rec { a: 1, r#type: 2, c: 3 }, "{\"x-y\":1,\"type\":2,\"\\\"q\\\"\":3}");
}
