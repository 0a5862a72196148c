#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct G<T, U> { t: T, u: Vec<U> }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct W<T> where T: Default { t: Option<T> }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct N<const K: usize> { a: [u8; K] }
fn main() {
    both!(G<u8, char>, G { t: 1, u: vec!['a'] }, "{\"t\":1,\"u\":[\"a\"]}");
    both!(W<u8>, W { t: None }, "{\"t\":null}");
    both!(N<2>, N { a: [1, 2] }, "{\"a\":[1,2]}");
}
