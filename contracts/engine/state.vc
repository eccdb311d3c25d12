=== sp
pub open spec fn kind_of(v: ValueV) -> KeyType {
    match v {
        ValueV::Boolean(_) => KeyType::Boolean,
        ValueV::Bytes(_) => KeyType::Bytes,
        ValueV::Float(_) => KeyType::Float,
        ValueV::Integer(_) => KeyType::Integer,
        ValueV::List(_) => KeyType::List,
        ValueV::Map(_) => KeyType::Map,
        ValueV::Set(_) => KeyType::Set,
        ValueV::Str(_) => KeyType::String,
    }
}
/// The empty value of a type.
pub open spec fn zero_of(k: KeyType) -> ValueV {
    match k {
        KeyType::Boolean => ValueV::Boolean(false),
        KeyType::Bytes => ValueV::Bytes(seq![]),
        KeyType::Float => ValueV::Float(0.0f64),
        KeyType::Integer => ValueV::Integer(0),
        KeyType::List => ValueV::List(seq![]),
        KeyType::Map => ValueV::Map(Map::empty()),
        KeyType::Set => ValueV::Set(Set::empty()),
        KeyType::String => ValueV::Str(seq![]),
    }
}
=== fn state::value::Value::kind
    ensures ret == kind_of(self@),
=== fn state::value::Value::boolean
    ensures ret == Value::Boolean(false),
=== fn state::value::Value::bytes
    ensures ret@ =~= zero_of(KeyType::Bytes),
=== fn state::value::Value::float
    ensures ret == Value::Float(0.0f64),
=== fn state::value::Value::integer
    ensures ret == Value::Integer(0),
=== fn state::value::Value::list
    ensures ret@ =~= zero_of(KeyType::List),
=== fn state::value::Value::map
    ensures ret@ =~= zero_of(KeyType::Map),
=== fn state::value::Value::set
    ensures ret@ =~= zero_of(KeyType::Set),
=== fn state::value::Value::string
    ensures ret@ =~= zero_of(KeyType::String),
=== fn state::value::Value::is_boolean
    ensures ret == (self@ is Boolean),
=== fn state::value::Value::as_boolean_ref
    ensures ret == (match *self { Value::Boolean(x) => Some(&x), _ => None }),
=== fn state::value::Value::as_boolean_mut
    ensures
        ret is Some <==> *old(self) is Boolean,
        ret matches Some(r) ==> *old(self) == Value::Boolean(*r) && *final(self) == Value::Boolean(*final(r)),
        ret is None ==> *final(self) == *old(self),
=== fn state::value::Value::is_bytes
    ensures ret == (self@ is Bytes),
=== fn state::value::Value::as_bytes_ref
    ensures ret is Some <==> *self is Bytes, *self matches Value::Bytes(x) ==> ret.unwrap()@ == x@,
=== fn state::value::Value::as_bytes_mut
    ensures
        ret is Some <==> *old(self) is Bytes,
        ret matches Some(r) ==> *old(self) == Value::Bytes(*r) && *final(self) == Value::Bytes(*final(r)),
        ret is None ==> *final(self) == *old(self),
=== fn state::value::Value::is_float
    ensures ret == (self@ is Float),
=== fn state::value::Value::as_float_ref
    ensures ret == (match *self { Value::Float(x) => Some(&x), _ => None }),
=== fn state::value::Value::as_float_mut
    ensures
        ret is Some <==> *old(self) is Float,
        ret matches Some(r) ==> *old(self) == Value::Float(*r) && *final(self) == Value::Float(*final(r)),
        ret is None ==> *final(self) == *old(self),
=== fn state::value::Value::is_integer
    ensures ret == (self@ is Integer),
=== fn state::value::Value::as_integer_ref
    ensures ret == (match *self { Value::Integer(x) => Some(&x), _ => None }),
=== fn state::value::Value::as_integer_mut
    ensures
        ret is Some <==> *old(self) is Integer,
        ret matches Some(r) ==> *old(self) == Value::Integer(*r) && *final(self) == Value::Integer(*final(r)),
        ret is None ==> *final(self) == *old(self),
=== fn state::value::Value::is_list
    ensures ret == (self@ is List),
=== fn state::value::Value::as_list_ref
    ensures ret is Some <==> *self is List, *self matches Value::List(x) ==> ret.unwrap()@ == x@,
=== fn state::value::Value::as_list_mut
    ensures
        ret is Some <==> *old(self) is List,
        ret matches Some(r) ==> *old(self) == Value::List(*r) && *final(self) == Value::List(*final(r)),
        ret is None ==> *final(self) == *old(self),
=== fn state::value::Value::is_map
    ensures ret == (self@ is Map),
=== fn state::value::Value::as_map_ref
    ensures ret == (match *self { Value::Map(x) => Some(&x), _ => None }),
=== fn state::value::Value::as_map_mut
    ensures
        ret is Some <==> *old(self) is Map,
        ret matches Some(r) ==> *old(self) == Value::Map(*r) && *final(self) == Value::Map(*final(r)),
        ret is None ==> *final(self) == *old(self),
=== fn state::value::Value::is_set
    ensures ret == (self@ is Set),
=== fn state::value::Value::as_set_ref
    ensures ret == (match *self { Value::Set(x) => Some(&x), _ => None }),
=== fn state::value::Value::as_set_mut
    ensures
        ret is Some <==> *old(self) is Set,
        ret matches Some(r) ==> *old(self) == Value::Set(*r) && *final(self) == Value::Set(*final(r)),
        ret is None ==> *final(self) == *old(self),
=== fn state::value::Value::is_string
    ensures ret == (self@ is Str),
=== fn state::value::Value::as_string_ref
    ensures ret is Some <==> *self is String, *self matches Value::String(x) ==> ret.unwrap()@ == x@,
=== fn state::value::Value::as_string_mut
    ensures
        ret is Some <==> *old(self) is String,
        ret matches Some(r) ==> *old(self) == Value::String(*r) && *final(self) == Value::String(*final(r)),
        ret is None ==> *final(self) == *old(self),
=== sp
/// "__hop__:", the prefix of the keys commands refuse.
pub open spec fn internal_prefix() -> Seq<u8> { seq![95u8, 95u8, 104u8, 111u8, 112u8, 95u8, 95u8, 58u8] }
pub open spec fn key_ok(k: Seq<u8>) -> bool { k.len() > 0 && !internal_prefix().is_prefix_of(k) }
=== mod state
impl View for State {
    type V = Map<Seq<u8>, ValueV>;
    open spec fn view(&self) -> Map<Seq<u8>, ValueV> { self.0@ }
}
=== fn state::State::new
    ensures ret@ == Map::<Seq<u8>, ValueV>::empty(),
=== fn state::State::contains_key
    ensures ret == self@.contains_key(key@),
=== fn state::State::insert
    ensures
        final(self)@ == old(self)@.insert(key@, value@),
        ret is Some <==> old(self)@.contains_key(key@),
        ret matches Some(x) ==> x@ == old(self)@[key@],
=== fn state::State::remove
    ensures
        final(self)@ == old(self)@.remove(key@),
        ret is Some <==> old(self)@.contains_key(key@),
        ret matches Some(x) ==> x.0@ == key@ && x.1@ == old(self)@[key@],
=== fn state::State::key_ref
    requires key_ok(key@),
    ensures
        ret is Some <==> self@.contains_key(key@),
        ret matches Some(x) ==> x@ == self@[key@],
=== fn state::State::key_mut
    requires key_ok(key@),
    ensures
        ret is Some <==> old(self)@.contains_key(key@),
        ret matches Some(x) ==> x@ == old(self)@[key@] && final(self)@ == old(self)@.insert(key@, final(x)@),
        ret is None ==> final(self)@ == old(self)@,
=== fn state::State::key_or_insert_with
    requires key_ok(key@), f.requires(()),
    ensures
        old(self)@.contains_key(key@) ==> ret@ == old(self)@[key@],
        !old(self)@.contains_key(key@) ==> exists|v: Value| #[trigger] f.ensures((), v) && *ret == v,
        final(self)@ == old(self)@.insert(key@, final(ret)@),
=== fn state::State::key_type
    ensures ret == (if self@.contains_key(key@) { Some(kind_of(self@[key@])) } else { None }),
=== fn state::State::Default::default
    ensures ret@ == Map::<Seq<u8>, ValueV>::empty(),
