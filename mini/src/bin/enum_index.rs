#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { A = 5, B, #[serde(reindex = 9)] C, D = 0, #[serde(reindex = 3)] F = 17, G }
fn main() {
    reads!(E, "5", E::A); reads!(E, "6", E::B); reads!(E, "9", E::C); reads!(E, "0", E::D); reads!(E, "3", E::F); reads!(E, "18", E::G);
    both!(E, E::F, "\"F\""); fails!(E, "7"); fails!(E, "1"); fails!(E, "17"); fails!(E, "19");
}
