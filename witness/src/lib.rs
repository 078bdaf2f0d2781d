//! A program using butane's macros: what they generate for it is analysed with the rest (never run).
#![allow(dead_code, mismatched_lifetime_syntaxes)]

pub mod models {
    use butane::{model, AutoPk, DataObject, FieldType, ForeignKey, Many, PrimaryKeyType};
    use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
    use serde::{Deserialize, Serialize};
    use uuid::Uuid;

    #[derive(Clone, Debug, PartialEq, FieldType, PrimaryKeyType)]
    pub struct Wrapped(pub i64);

    #[derive(Clone, Debug, PartialEq, FieldType)]
    pub struct WrappedText(pub String);

    #[derive(Clone, Debug, PartialEq, FieldType)]
    pub enum Coin {
        Heads,
        Tails,
        Edge,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, FieldType)]
    pub struct Doc {
        pub a: i32,
        pub b: String,
    }

    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize, FieldType)]
    pub enum Shape {
        Dot,
        Disc { r: f64 },
    }

    /// Every field type.
    #[model]
    #[derive(Clone, Debug)]
    pub struct Plain {
        pub id: i64,
        pub a_bool: bool,
        pub a_u8: u8,
        pub a_i8: i8,
        pub a_u16: u16,
        pub a_i16: i16,
        pub a_i32: i32,
        pub a_u32: u32,
        pub a_f32: f32,
        pub a_f64: f64,
        pub a_text: String,
        pub a_blob: Vec<u8>,
        pub a_json: serde_json::Value,
        pub a_uuid: Uuid,
        pub a_time: NaiveDateTime,
        pub a_utc: DateTime<Utc>,
        pub a_date: NaiveDate,
        pub a_wrapped: Wrapped,
        pub a_coin: Coin,
        pub a_doc: Doc,
        pub o_int: Option<i32>,
        pub o_text: Option<String>,
    }

    /// The key is generated and is not the first field.
    #[model]
    #[derive(Clone, Debug)]
    pub struct Auto {
        pub name: String,
        pub id: AutoPk<i64>,
        pub n: Option<i32>,
    }

    /// Own table name, own key, reserved words.
    #[model]
    #[table = "own_table"]
    #[derive(Clone, Debug)]
    pub struct Named {
        pub r#type: i16,
        #[unique]
        pub u: u32,
        #[pk]
        pub key: String,
        #[default = 3]
        pub select: i32,
        pub link: ForeignKey<Auto>,
        pub olink: Option<ForeignKey<Auto>>,
    }

    /// Many-to-many fields before, between and after columns.
    #[model]
    #[derive(Clone, Debug)]
    pub struct Linked {
        pub autos: Many<Auto>,
        pub before: String,
        pub id: AutoPk<i32>,
        pub plains: Many<Plain>,
        pub after: i64,
        pub named: Many<Named>,
    }

    /// The same with a table name.
    #[model]
    #[table = "links"]
    #[derive(Clone, Debug)]
    pub struct OwnLinked {
        #[pk]
        pub code: Wrapped,
        pub autos: Many<Auto>,
        pub text: String,
    }

    /// Only a generated key.
    #[model]
    #[derive(Clone, Debug)]
    pub struct OnlyKey {
        pub id: AutoPk<i64>,
    }

    /// The same types by other names, and more of the optional ones.
    #[model]
    #[derive(Clone, Debug)]
    pub struct Spelled {
        #[pk]
        pub key: uuid::Uuid,
        #[default = "none"]
        pub s1: std::string::String,
        pub s2: ::std::string::String,
        pub b1: std::vec::Vec<u8>,
        pub b2: ::std::vec::Vec<u8>,
        #[default = true]
        pub flag: bool,
        pub d1: chrono::NaiveDate,
        pub d2: chrono::NaiveDateTime,
        pub d3: chrono::DateTime<chrono::Utc>,
        pub o_s: Option<std::string::String>,
        pub o_b: Option<Vec<u8>>,
        pub o_d: Option<NaiveDateTime>,
        pub o_w: Option<Wrapped>,
        #[unique]
        pub o_u: Option<u32>,
        pub own: ForeignKey<OwnLinked>,
        pub text_key: ForeignKey<Named>,
    }

    /// Keywords as names, of the key too.
    #[model]
    #[derive(Clone, Debug)]
    pub struct RawKey {
        pub r#loop: Many<Auto>,
        pub r#in: Option<i64>,
        #[pk]
        pub r#type: String,
        pub r#for: ForeignKey<Named>,
    }

    #[derive(Clone, Debug, DataObject)]
    pub struct Derived {
        pub title: String,
        #[pk]
        pub slug: String,
        pub views: i64,
        pub parent: ForeignKey<Plain>,
    }

    #[butane::dataresult(Plain)]
    pub struct Part {
        pub a_text: String,
        pub id: i64,
        pub a_f64: f64,
    }
}

pub mod filters {
    use super::models::*;
    use butane::query::{BoolExpr, Query};
    use butane::{filter, query};

    pub fn eq(x: i32) -> BoolExpr {
        filter!(Plain, a_i32 == { x })
    }
    pub fn ne(x: i32) -> BoolExpr {
        filter!(Plain, a_i32 != { x })
    }
    pub fn lt(x: i32) -> BoolExpr {
        filter!(Plain, a_i32 < { x })
    }
    pub fn gt(x: i32) -> BoolExpr {
        filter!(Plain, a_i32 > { x })
    }
    pub fn le(x: i32) -> BoolExpr {
        filter!(Plain, a_i32 <= { x })
    }
    pub fn ge(x: i32) -> BoolExpr {
        filter!(Plain, a_i32 >= { x })
    }
    pub fn eq_lit() -> BoolExpr {
        filter!(Plain, a_text == "lit")
    }
    pub fn eq_none() -> BoolExpr {
        filter!(Plain, o_int == None)
    }
    pub fn ne_none() -> BoolExpr {
        filter!(Plain, o_int != None)
    }
    pub fn like(s: String) -> BoolExpr {
        filter!(Plain, a_text.like({ s }))
    }
    pub fn is_in(v: Vec<i32>) -> BoolExpr {
        filter!(Plain, a_i32.is_in(v))
    }
    pub fn and(x: i32, s: String) -> BoolExpr {
        filter!(Plain, a_i32 == { x } && a_text == { s })
    }
    pub fn or(x: i32, s: String) -> BoolExpr {
        filter!(Plain, a_i32 == { x } || a_text == { s })
    }
    pub fn and_or(x: i32, y: i32, z: i32) -> BoolExpr {
        filter!(Plain, a_i32 == { x } || a_i32 < { y } && a_i32 > { z })
    }
    pub fn or_or(x: i32, y: i32, z: i32) -> BoolExpr {
        filter!(Plain, a_i32 == { x } || a_i32 < { y } || a_i32 > { z })
    }
    pub fn named(x: i32) -> BoolExpr {
        filter!(Named, select == { x })
    }
    pub fn matches(x: String) -> BoolExpr {
        filter!(Named, link.matches(name == { x }))
    }
    pub fn matches_pk() -> BoolExpr {
        filter!(Derived, parent.matches(7))
    }
    pub fn contains(x: String) -> BoolExpr {
        filter!(Linked, autos.contains(name == { x }))
    }
    pub fn contains_pk() -> BoolExpr {
        filter!(Linked, autos.contains(7))
    }
    pub fn contains_own(x: String) -> BoolExpr {
        filter!(OwnLinked, autos.contains(name == { x }))
    }
    pub fn contains_named(x: i32) -> BoolExpr {
        filter!(Linked, named.contains(select == { x }))
    }
    pub fn contains_own_pk() -> BoolExpr {
        filter!(OwnLinked, autos.contains(7))
    }
    pub fn contains_named_pk() -> BoolExpr {
        filter!(Linked, named.contains("lit"))
    }
    pub fn nested(x: String, y: i32) -> BoolExpr {
        filter!(Linked, named.contains(link.matches(name == { x }) || select < { y }) && before != "lit")
    }
    pub fn raw(x: i16) -> BoolExpr {
        filter!(Named, r#type == { x })
    }
    pub fn part(x: i32) -> BoolExpr {
        filter!(Part, a_i32 == { x })
    }
    pub fn query(x: i32) -> Query<Plain> {
        query!(Plain, a_i32 == { x })
    }
    pub fn query_part(x: i32) -> Query<Part> {
        query!(Part, a_i32 == { x })
    }
    pub fn find(x: i32, conn: &butane::db::Connection) -> butane::Result<Plain> {
        butane::find!(Plain, a_i32 == { x }, conn)
    }
    pub async fn find_async(x: i32, conn: &butane::db::ConnectionAsync) -> butane::Result<Plain> {
        butane::find_async!(Plain, a_i32 == { x }, conn)
    }
}
