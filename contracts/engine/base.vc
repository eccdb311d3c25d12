=== sp
use crate::command::{command_id::*, error::Error as DispatchError, request::*, request::context::{Context, ParseError}};
use crate::state::{KeyType, value::Value};
use std::borrow::Cow;
=== mut_types
Hop State
=== mut_self
state::State::insert state::State::remove state::State::key_mut state::State::key_or_insert_with
hop::Hop::dispatch hop::Hop::state
session::manager::SessionManager::remove
pubsub::manager::PubSubManager::subscribe pubsub::manager::PubSubManager::unsubscribe pubsub::manager::PubSubManager::remove_session
=== inline
session::manager::SessionManager::next_id
=== mod state::value
impl VxSelfValue for Value { fn value(&self) -> (r: &Self) { self } }
impl View for Value {
    type V = ValueV;
    open spec fn view(&self) -> ValueV {
        match *self {
            Value::Boolean(x) => ValueV::Boolean(x),
            Value::Bytes(x) => ValueV::Bytes(x@),
            Value::Float(x) => ValueV::Float(x),
            Value::Integer(x) => ValueV::Integer(x),
            Value::List(x) => ValueV::List(deep(x@)),
            Value::Map(x) => ValueV::Map(x@),
            Value::Set(x) => ValueV::Set(x@),
            Value::String(x) => ValueV::Str(x@),
        }
    }
}
=== sp
#[verifier::ext_equal]
pub enum ValueV {
    Boolean(bool), Bytes(Seq<u8>), Float(f64), Integer(i64), List(Seq<Seq<u8>>),
    Map(vstd::map::Map<Seq<u8>, Seq<u8>>), Set(vstd::set::Set<Seq<u8>>), Str(Seq<char>),
}
pub open spec fn deep(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
