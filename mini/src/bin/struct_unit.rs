#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Rec;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct E {}
fn main() { both!(Rec, Rec, "{}"); both!(E, E {}, "{}"); both!(Vec<Rec>, vec![Rec, Rec], "[{},{}]"); }
