#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Rec { a: u8, b: String, c: Vec<bool> }
fn main() {
    both!(Rec, Rec { a: 1, b: "x".into(), c: vec![true] }, "{\"a\":1,\"b\":\"x\",\"c\":[true]}");
    reads!(Rec, "{\"c\":[],\"zz\":{},\"b\":\"\",\"a\":2}", Rec { a: 2, b: "".into(), c: vec![] });
    reads!(Rec, "[3,\"q\",[]]", Rec { a: 3, b: "q".into(), c: vec![] });
    fails!(Rec, "[3,\"q\"]"); fails!(Rec, "[3,\"q\",[],1]"); fails!(Rec, "{\"a\":1,\"b\":\"x\"}");
}
