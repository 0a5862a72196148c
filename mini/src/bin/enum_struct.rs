#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { A, B { x: u8, #[serde(rename = "why")] y: Option<u8> }, #[serde(rename = "d", reindex = 4)] D {} }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "t t")]
enum T { A { x: u8 }, B }
fn main() {
    both!(E, E::A, "{\"type\":\"A\"}");
    both!(E, E::B { x: 1, y: None }, "{\"type\":\"B\",\"x\":1,\"why\":null}");
    both!(E, E::D {}, "{\"type\":\"d\"}");
    reads!(E, "{\"x\":1,\"type\":1}", E::B { x: 1, y: None });
    reads!(E, "[1,2,3]", E::B { x: 2, y: Some(3) });
    fails!(E, "{\"type\":2}"); fails!(E, "{}");
    reads!(T, "{\"x\":1,\"t t\":\"A\"}", T::A { x: 1 });
}
