#![allow(dead_code)]
use mini::*;
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { A, B, #[serde(rename = "cee")] C, r#Self_ }
fn main() {
    both!(E, E::A, "\"A\""); both!(E, E::C, "\"cee\""); both!(E, E::Self_, "\"Self_\"");
    reads!(E, "1", E::B); reads!(E, "3", E::Self_); fails!(E, "4"); fails!(E, "\"C\""); fails!(E, "\"1\"");
}
