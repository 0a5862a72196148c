#![allow(dead_code)]
use mini::*;
struct K(u8);
impl<Z: serdere::Serializer + ?Sized> Serialize<Z, Vec<u8>> for K {
    const NULLABLE: bool = false;
    fn serialize(&self, value: serdere::Value<Z>, c: &mut Vec<u8>) -> Result<(), Z::Error> { c.push(self.0); value.put_u8(self.0) }
}
impl<D: serdere::Deserializer + ?Sized> Deserialize<D, Vec<u8>> for K {
    const NULLABLE: bool = false;
    fn deserialize(value: serdere::Value<D>, c: &mut Vec<u8>) -> Result<K, D::Error> { let x = value.get_u8()?; c.push(x); Ok(K(x)) }
}
#[derive(Serialize, Deserialize)]
struct I<T> { x: T }
#[derive(Serialize, Deserialize)]
struct G<T, U> { a: T, #[serde(flatten)] i: U, b: Vec<T>, c: Option<T> }
#[derive(Serialize, Deserialize)]
enum E<T> { A { v: T }, B }
fn main() {
    let mut c = Vec::new();
    let t = serdere_json::to_str_using(&I { x: K(3) }, &mut c);
    assert_eq!(c, [3]);
    let r: Result<I<K>, _> = serdere_json::from_str_using(&t, &mut c);
    assert_eq!(r.unwrap().x.0, 3);
    assert_eq!(c, [3, 3]);
    c.clear();
    let t = serdere_json::to_str_using(&E::A { v: vec![K(1), K(2)] }, &mut c);
    let r: Result<E<Vec<K>>, _> = serdere_json::from_str_using(&t, &mut c);
    assert!(matches!(r.unwrap(), E::A { .. }));
    assert_eq!(c, [1, 2, 1, 2]);
}
