#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct I { x: u8 }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { #[serde(transparent)] A(I), #[serde(transparent)] B { i: I }, C }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum G<T> { #[serde(transparent)] A(T), B { t: u8 } }
fn main() {
    both!(E, E::A(I { x: 1 }), "{\"type\":\"A\",\"x\":1}");
    both!(E, E::B { i: I { x: 2 } }, "{\"type\":\"B\",\"x\":2}");
    both!(E, E::C, "{\"type\":\"C\"}");
    both!(G<I>, G::A(I { x: 3 }), "{\"type\":\"A\",\"x\":3}");
    both!(G<()>, G::A(()), "{\"type\":\"A\"}");
}
