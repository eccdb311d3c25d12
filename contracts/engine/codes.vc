=== sp
/// The wire code of a command is the discriminant of its variant.
pub open spec fn cmd_code(c: CommandId) -> u8 { c.code() }
pub open spec fn cmd_name(c: CommandId) -> Seq<char> {
    match c {
        CommandId::Append => "append"@,
        CommandId::DecrementBy => "decrement:by"@,
        CommandId::Decrement => "decrement"@,
        CommandId::Delete => "delete"@,
        CommandId::Echo => "echo"@,
        CommandId::Exists => "exists"@,
        CommandId::Get => "get"@,
        CommandId::IncrementBy => "increment:by"@,
        CommandId::Increment => "increment"@,
        CommandId::Is => "is"@,
        CommandId::Keys => "keys"@,
        CommandId::Length => "length"@,
        CommandId::Rename => "rename"@,
        CommandId::Set => "set"@,
        CommandId::Stats => "stats"@,
        CommandId::Type => "type"@,
    }
}
pub open spec fn simple(c: CommandId) -> bool { c is Stats }
pub open spec fn keyed(c: CommandId) -> bool { !(c is Stats || c is Echo) }
/// Codes are distinct, below 128, and names are distinct.
pub proof fn lemma_cmd_codes(a: CommandId, b: CommandId)
    ensures cmd_code(a) < 128, cmd_code(a) == cmd_code(b) <==> a == b,
{ }
pub proof fn lemma_cmd_names(a: CommandId, b: CommandId)
    ensures cmd_name(a) == cmd_name(b) <==> a == b,
{
    reveal_strlit("append");
    reveal_strlit("decrement:by");
    reveal_strlit("decrement");
    reveal_strlit("delete");
    reveal_strlit("echo");
    reveal_strlit("exists");
    reveal_strlit("get");
    reveal_strlit("increment:by");
    reveal_strlit("increment");
    reveal_strlit("is");
    reveal_strlit("keys");
    reveal_strlit("length");
    reveal_strlit("rename");
    reveal_strlit("set");
    reveal_strlit("stats");
    reveal_strlit("type");
    let (x, y) = (cmd_name(a), cmd_name(b));
    if x == y { assert(x.len() == y.len()); assert(x[0] == y[0]); assert(x[x.len() - 1] == y[y.len() - 1]); assert(x.len() > 2 ==> x[2] == y[2]); assert(x.len() > 1 ==> x[1] == y[1]); }
}
=== fn command::command_id::CommandId::is_simple
    ensures ret == simple(self),
=== fn command::command_id::CommandId::argument_notation
    ensures ret is None && self.key_notation_spec() is None <==> simple(self),
=== impl command::command_id::CommandId
    pub open spec fn key_notation_spec(self) -> KeyNotation {
        match self {
            CommandId::Echo | CommandId::Stats => KeyNotation::None,
            CommandId::Exists | CommandId::Is => KeyNotation::Multiple,
            CommandId::Rename => KeyNotation::Two,
            _ => KeyNotation::One,
        }
    }
=== fn command::command_id::CommandId::key_notation
    ensures ret == self.key_notation_spec(),
=== fn command::command_id::CommandId::name
    ensures ret@ == cmd_name(*self),
=== sp
/// The command of a name.
pub open spec fn cmd_named(n: Seq<char>) -> Option<CommandId> {
    if exists|c: CommandId| n == #[trigger] cmd_name(c) { Some(choose|c: CommandId| n == #[trigger] cmd_name(c)) } else { None }
}
pub broadcast proof fn lemma_cmd_named(c: CommandId)
    ensures cmd_named(#[trigger] cmd_name(c)) == Some(c),
{
    let d = choose|d: CommandId| cmd_name(c) == #[trigger] cmd_name(d);
    lemma_cmd_names(c, d);
}
=== fn command::command_id::CommandId::FromStr::from_str
    ensures
        ret matches Ok(c) ==> s@ == cmd_name(c),
        ret is Err ==> forall|c: CommandId| s@ != #[trigger] cmd_name(c),
--- entry
    broadcast use axiom_str_ext;
=== fn command::command_id::CommandId::TryFrom<u8>::try_from
    ensures
        ret matches Ok(c) ==> cmd_code(c) == num,
        ret is Err ==> forall|c: CommandId| #[trigger] cmd_code(c) != num,
=== fn command::command_id::CommandId::TryFrom<&str>::try_from
    ensures
        ret matches Ok(c) ==> s@ == cmd_name(c),
        ret is Err ==> forall|c: CommandId| s@ != #[trigger] cmd_name(c),
=== sp
pub open spec fn kt_code(k: KeyType) -> u8 { k.code() }
pub proof fn lemma_kt_codes(a: KeyType, b: KeyType)
    ensures kt_code(a) == kt_code(b) <==> a == b,
{ }
=== fn state::KeyType::TryFrom<u8>::try_from
    ensures
        ret matches Ok(c) ==> kt_code(c) == v,
        ret is Err ==> forall|c: KeyType| #[trigger] kt_code(c) != v,
=== sp
pub open spec fn err_code(e: DispatchError) -> u8 { e.code() }
pub proof fn lemma_err_codes(a: DispatchError, b: DispatchError)
    ensures err_code(a) == err_code(b) <==> a == b,
{ }
=== fn command::error::Error::TryFrom<u8>::try_from
    ensures
        ret matches Ok(c) ==> err_code(c) == value,
        ret is Err ==> forall|c: Error| #[trigger] err_code(c) != value,
=== sp
pub open spec fn perr_code(e: ParseError) -> u8 { e.code() }
pub proof fn lemma_perr_codes(a: ParseError, b: ParseError)
    ensures perr_code(a) == perr_code(b) <==> a == b,
{ }
=== fn command::request::context::ParseError::TryFrom<u8>::try_from
    ensures
        ret matches Ok(c) ==> perr_code(c) == value,
        ret is Err ==> forall|c: ParseError| #[trigger] perr_code(c) != value,
