#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Rec { a: u8, #[serde(default)] b: Vec<u8>, #[serde(default, rename = "z")] c: Option<u8> }
fn main() {
    both!(Rec, Rec { a: 1, b: vec![2], c: Some(3) }, "{\"a\":1,\"b\":[2],\"z\":3}");
    reads!(Rec, "{\"a\":1}", Rec { a: 1, b: vec![], c: None });
    reads!(Rec, "{\"b\":null,\"a\":1}", Rec { a: 1, b: vec![], c: None });
    reads!(Rec, "[1,null,null]", Rec { a: 1, b: vec![], c: None });
    fails!(Rec, "{\"b\":[]}");
}
