//! Stand-alone user programs, one per derive feature. Each must compile and run without a panic.
//! C14 falls back to them when the full harness does not build against the current tree, in
//! order to tell a derive that rejects a valid type from a tree that doesn't build at all.
pub use serdere::{Deserialize, Serialize};
pub use serdere_json::{from_str, to_str};

pub fn text<T: for<'a> Serialize<serdere_json::TextSerializer<&'a mut String>>>(v: &T) -> String {
    to_str(v).chars().filter(|c| *c != ' ' && *c != '\n').collect()
}

#[macro_export]
macro_rules! both {
    ($ty:ty, $value:expr, $text:expr) => {{
        let v: $ty = $value;
        assert_eq!($crate::text(&v), $text);
        assert_eq!($crate::from_str::<$ty>($text).unwrap(), v, "{}", $text);
    }};
}

#[macro_export]
macro_rules! reads {
    ($ty:ty, $text:expr, $value:expr) => {
        assert_eq!($crate::from_str::<$ty>($text).unwrap(), $value, "{}", $text)
    };
}

#[macro_export]
macro_rules! fails {
    ($ty:ty, $text:expr) => {
        assert!($crate::from_str::<$ty>($text).is_err(), "{}", $text)
    };
}
