=== drop
cli::print
cli::process
=== mod cli::parse
#[allow(unused_imports)] use crate::vs::*;
=== sp
use crate::vs::*;
use crate::cli::parse::ParseError as CliError;
/// An error of the parser.
pub enum LineErr {
    ArgumentInvalid(Seq<char>, KeyType),
    Building(RequestBuilderError),
    InvalidCommand(Seq<char>),
    KeyUnspecified,
    MapIncomplete(Seq<char>),
    NoCommand,
}
pub open spec fn line_err(e: CliError) -> LineErr {
    match e {
        CliError::ArgumentInvalid { argument, key_type } => LineErr::ArgumentInvalid(argument@, key_type),
        CliError::BuildingRequest { source } => LineErr::Building(source),
        CliError::InvalidCommandType { provided_name } => LineErr::InvalidCommand(provided_name@),
        CliError::KeyUnspecified => LineErr::KeyUnspecified,
        CliError::MapIncomplete { key } => LineErr::MapIncomplete(key@),
        CliError::NoCommandProvided => LineErr::NoCommand,
    }
}
/// The key type that a name stands for.
pub open spec fn kt_named(n: Seq<char>) -> Option<KeyType> {
    if n == "boolean"@ || n == "bool"@ { Some(KeyType::Boolean) }
    else if n == "bytes"@ { Some(KeyType::Bytes) }
    else if n == "float"@ { Some(KeyType::Float) }
    else if n == "integer"@ || n == "int"@ { Some(KeyType::Integer) }
    else if n == "list"@ { Some(KeyType::List) }
    else if n == "map"@ { Some(KeyType::Map) }
    else if n == "set"@ { Some(KeyType::Set) }
    else if n == "string"@ || n == "str"@ { Some(KeyType::String) }
    else { None }
}
/// The command and the key type that the first word names: `command` or `command:type`.
pub open spec fn head_named(n: Seq<char>) -> Option<(CommandId, Option<KeyType>)> {
    match cmd_named(n) {
        Some(c) => Some((c, None)),
        None => if !n.contains(':') { None } else {
            let i = n.index_of_last(':').unwrap();
            match (cmd_named(n.take(i)), kt_named(n.skip(i + 1))) { (Some(c), Some(k)) => Some((c, Some(k))), _ => None }
        },
    }
}
/// The bytes of one word as an argument of the type.
pub open spec fn word_arg(w: Seq<char>, k: KeyType) -> Option<Seq<u8>> {
    match k {
        KeyType::Boolean => match read_as::<bool>(w) { Some(b) => Some(seq![b.code()]), None => None },
        KeyType::Float => match read_as::<f64>(w) { Some(f) => Some(be_f64(f)), None => None },
        KeyType::Integer => match read_as::<i64>(w) { Some(i) => Some(be_i64(i)), None => None },
        _ => Some(utf8(w)),
    }
}
/// The arguments after the keys.
pub open spec fn typed_args(ws: Seq<Seq<char>>, k: KeyType) -> Result<Seq<Seq<u8>>, LineErr>
    decreases ws.len(),
{
    if ws.len() == 0 { Ok(seq![]) }
    else if k == KeyType::Map {
        if ws.len() == 1 { Err(LineErr::MapIncomplete(ws[0])) }
        else { match typed_args(ws.skip(2), k) { Ok(r) => Ok(seq![utf8(ws[0]), utf8(ws[1])] + r), Err(e) => Err(e) } }
    } else {
        match word_arg(ws[0], k) {
            None => Err(LineErr::ArgumentInvalid(ws[0], k)),
            Some(a) => match typed_args(ws.skip(1), k) { Ok(r) => Ok(seq![a] + r), Err(e) => Err(e) },
        }
    }
}
pub open spec fn utf8s(ws: Seq<Seq<char>>) -> Seq<Seq<u8>> { ws.map_values(|w: Seq<char>| utf8(w)) }
pub open spec fn keys_then(n: int, ws: Seq<Seq<char>>, k: KeyType) -> Result<Seq<Seq<u8>>, LineErr> {
    if ws.len() < n { Err(LineErr::KeyUnspecified) }
    else { match typed_args(ws.skip(n), k) { Ok(r) => Ok(utf8s(ws.take(n)) + r), Err(e) => Err(e) } }
}
/// The arguments that the words after the first one stand for.
pub open spec fn word_args(c: CommandId, k: KeyType, ws: Seq<Seq<char>>) -> Result<Seq<Seq<u8>>, LineErr> {
    match c.key_notation_spec() {
        KeyNotation::None => typed_args(ws, k),
        KeyNotation::One => keys_then(1, ws, k),
        KeyNotation::Two => keys_then(2, ws, k),
        KeyNotation::Multiple => Ok(utf8s(ws)),
    }
}
/// The first argument that the request can't take.
pub open spec fn refused(c: CommandId, args: Seq<Seq<u8>>) -> Option<RequestBuilderError>
    decreases args.len(),
{
    if args.len() == 0 { None } else {
        match refused(c, args.drop_last()) {
            Some(e) => Some(e),
            None => if args.last().len() == 0 { Some(RequestBuilderError::ArgumentEmpty) }
                else if overfull(c, args.drop_last(), 1) { Some(RequestBuilderError::TooManyArguments) }
                else { None },
        }
    }
}
/// What a line describes.
pub open spec fn line_request(l: Seq<char>) -> Result<(CommandId, KeyType, Seq<Seq<u8>>), LineErr> {
    let ws = words(l, ' ');
    if ws[0].len() == 0 { Err(LineErr::NoCommand) } else {
        match head_named(ws[0]) {
            None => Err(LineErr::InvalidCommand(ws[0])),
            Some((c, k)) => {
                let k = match k { Some(k) => k, None => KeyType::Bytes };
                let args = if ws.len() == 1 { Ok(seq![]) } else { word_args(c, k, ws.skip(1)) };
                match args {
                    Err(e) => Err(e),
                    Ok(a) => match refused(c, a) { Some(e) => Err(LineErr::Building(e)), None => Ok((c, k, a)) },
                }
            }
        }
    }
}
pub broadcast proof fn lemma_strs_tail(s: Seq<&str>)
    requires s.len() > 0,
    ensures #[trigger] strs(s.drop_first()) == strs(s).skip(1),
{ assert(strs(s.drop_first()) =~= strs(s).skip(1)); }
pub broadcast proof fn lemma_bytes_push(s: Seq<Vec<u8>>, v: Vec<u8>)
    ensures #[trigger] bytes_of(s.push(v)) == bytes_of(s).push(v@),
{ assert(bytes_of(s.push(v)) =~= bytes_of(s).push(v@)); }
pub broadcast proof fn lemma_push_add(a: Seq<Seq<u8>>, x: Seq<u8>, r: Seq<Seq<u8>>)
    ensures #[trigger] (a.push(x) + r) == a + (seq![x] + r),
{ assert(a.push(x) + r =~= a + (seq![x] + r)); }
pub broadcast proof fn lemma_push_push_add(a: Seq<Seq<u8>>, x: Seq<u8>, y: Seq<u8>, r: Seq<Seq<u8>>)
    ensures #[trigger] (a.push(x).push(y) + r) == a + (seq![x, y] + r),
{ assert(a.push(x).push(y) + r =~= a + (seq![x, y] + r)); }
pub broadcast proof fn lemma_strs_len(s: Seq<&str>)
    ensures (#[trigger] strs(s)).len() == s.len(),
{ }
pub broadcast proof fn lemma_strs_at(s: Seq<&str>, i: int)
    requires 0 <= i < s.len(),
    ensures (#[trigger] strs(s))[i] == (#[trigger] s[i])@,
{ }
/// One more word.
pub proof fn lemma_utf8s(ws: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ws.len(),
    ensures
        n == 0 ==> utf8s(ws.take(n)) == Seq::<Seq<u8>>::empty(),
        n < ws.len() ==> utf8s(ws.take(n + 1)) == utf8s(ws.take(n)).push(utf8(ws[n])),
        n == ws.len() ==> utf8s(ws.take(n)) == utf8s(ws),
{
    if n == 0 { assert(utf8s(ws.take(n)) =~= Seq::<Seq<u8>>::empty()); }
    if n < ws.len() { assert(utf8s(ws.take(n + 1)) =~= utf8s(ws.take(n)).push(utf8(ws[n]))); }
    if n == ws.len() { assert(ws.take(n) =~= ws); }
}
pub broadcast proof fn lemma_skip_skip(ws: Seq<Seq<char>>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= ws.len(),
    ensures #[trigger] ws.skip(n).skip(m) == ws.skip(n + m),
{ assert(ws.skip(n).skip(m) =~= ws.skip(n + m)); }
pub broadcast proof fn lemma_skip_none(ws: Seq<Seq<char>>)
    ensures #[trigger] ws.skip(0) == ws,
{ assert(ws.skip(0) =~= ws); }
pub broadcast proof fn lemma_add_none(a: Seq<Seq<u8>>)
    ensures a + Seq::<Seq<u8>>::empty() == a, #[trigger] (Seq::<Seq<u8>>::empty() + a) == a,
{ assert(a + Seq::<Seq<u8>>::empty() =~= a); assert(Seq::<Seq<u8>>::empty() + a =~= a); }
pub broadcast proof fn lemma_bytes_none()
    ensures #[trigger] bytes_of(Seq::<Vec<u8>>::empty()) == Seq::<Seq<u8>>::empty(),
{ assert(bytes_of(Seq::<Vec<u8>>::empty()) =~= Seq::<Seq<u8>>::empty()); }
pub broadcast group group_line { axiom_try_from, lemma_strs_tail, lemma_bytes_push, lemma_push_add, lemma_push_push_add, lemma_strs_at, lemma_strs_len, lemma_skip_skip, lemma_skip_none, lemma_add_none, lemma_bytes_none, axiom_read_bool }
pub proof fn lemma_kt_names()
    ensures
        kt_named("boolean"@) == Some(KeyType::Boolean), kt_named("bool"@) == Some(KeyType::Boolean),
        kt_named("bytes"@) == Some(KeyType::Bytes),
        kt_named("float"@) == Some(KeyType::Float),
        kt_named("integer"@) == Some(KeyType::Integer), kt_named("int"@) == Some(KeyType::Integer),
        kt_named("list"@) == Some(KeyType::List),
        kt_named("map"@) == Some(KeyType::Map),
        kt_named("set"@) == Some(KeyType::Set),
        kt_named("string"@) == Some(KeyType::String), kt_named("str"@) == Some(KeyType::String),
{
    reveal_strlit("boolean"); reveal_strlit("bool"); reveal_strlit("bytes"); reveal_strlit("float"); reveal_strlit("integer"); reveal_strlit("int");
    reveal_strlit("list"); reveal_strlit("map"); reveal_strlit("set"); reveal_strlit("string"); reveal_strlit("str");
    assert("boolean"@.len() == 7 && "bool"@.len() == 4 && "bytes"@.len() == 5 && "float"@.len() == 5 && "integer"@.len() == 7 && "int"@.len() == 3);
    assert("list"@.len() == 4 && "map"@.len() == 3 && "set"@.len() == 3 && "string"@.len() == 6 && "str"@.len() == 3);
    assert("boolean"@[0] == 'b' && "bool"@[0] == 'b' && "bytes"@[0] == 'b' && "float"@[0] == 'f' && "integer"@[0] == 'i' && "int"@[0] == 'i');
    assert("list"@[0] == 'l' && "map"@[0] == 'm' && "set"@[1] == 'e' && "set"@[0] == 's' && "string"@[0] == 's' && "str"@[0] == 's' && "str"@[1] == 't');
}
pub proof fn lemma_words(s: Seq<char>, c: char)
    ensures words(s, c).len() > 0, forall|i: int| 0 <= i < words(s, c).len() ==> utf8(#[trigger] words(s, c)[i]).len() <= utf8(s).len(),
    decreases s.len(),
{
    if s.contains(c) {
        let i = s.index_of_first(c).unwrap();
        s.index_of_first_ensures(c);
        lemma_words(s.skip(i + 1), c);
        assert(s =~= s.take(i) + seq![c] + s.skip(i + 1));
        axiom_utf8_add(s.take(i) + seq![c], s.skip(i + 1));
        axiom_utf8_add(s.take(i), seq![c]);
        let t = words(s.skip(i + 1), c);
        assert forall|j: int| 0 <= j < words(s, c).len() implies utf8(#[trigger] words(s, c)[j]).len() <= utf8(s).len() by {
            if j > 0 { assert(words(s, c)[j] == t[j - 1]); }
        }
    }
}
pub open spec fn words_fit(ws: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ws.len() ==> arg_fits(utf8(#[trigger] ws[i])) }
pub proof fn lemma_typed_fits(ws: Seq<Seq<char>>, k: KeyType)
    requires words_fit(ws),
    ensures typed_args(ws, k) matches Ok(a) ==> all_fit(a),
    decreases ws.len(),
{
    broadcast use axiom_be_i64, axiom_be_f64;
    if ws.len() == 0 { }
    else if k == KeyType::Map { if ws.len() > 1 { lemma_typed_fits(ws.skip(2), k); } }
    else { lemma_typed_fits(ws.skip(1), k); }
}
pub proof fn lemma_typed(ws: Seq<Seq<char>>, k: KeyType)
    requires ws.len() > 0,
    ensures
        k == KeyType::Map && ws.len() == 1 ==> typed_args(ws, k) == Err::<Seq<Seq<u8>>, LineErr>(LineErr::MapIncomplete(ws[0])),
        k == KeyType::Map && ws.len() > 1 ==> typed_args(ws, k) == (match typed_args(ws.skip(2), k) { Ok(r) => Ok::<Seq<Seq<u8>>, LineErr>(seq![utf8(ws[0]), utf8(ws[1])] + r), Err(e) => Err(e) }),
        k != KeyType::Map && word_arg(ws[0], k) is None ==> typed_args(ws, k) == Err::<Seq<Seq<u8>>, LineErr>(LineErr::ArgumentInvalid(ws[0], k)),
        k != KeyType::Map && word_arg(ws[0], k) is Some ==> typed_args(ws, k) == (match typed_args(ws.skip(1), k) { Ok(r) => Ok::<Seq<Seq<u8>>, LineErr>(seq![word_arg(ws[0], k).unwrap()] + r), Err(e) => Err(e) }),
{ }
pub proof fn lemma_rparts(s: Seq<char>, c: char)
    ensures
        !s.contains(c) ==> rparts(s, 2, c) == seq![s],
        s.contains(c) ==> 0 <= s.index_of_last(c).unwrap() < s.len() && rparts(s, 2, c) == seq![s.skip(s.index_of_last(c).unwrap() + 1), s.take(s.index_of_last(c).unwrap())],
{
    reveal_with_fuel(rparts, 3);
    if s.contains(c) {
        s.index_of_last_ensures(c);
        assert(rparts(s, 2, c) =~= seq![s.skip(s.index_of_last(c).unwrap() + 1), s.take(s.index_of_last(c).unwrap())]);
    }
}
pub proof fn lemma_args_fit(c: CommandId, k: KeyType, ws: Seq<Seq<char>>)
    requires words_fit(ws),
    ensures word_args(c, k, ws) matches Ok(a) ==> all_fit(a),
{
    lemma_typed_fits(ws, k);
    if ws.len() >= 1 { lemma_typed_fits(ws.skip(1), k); }
    if ws.len() >= 2 { lemma_typed_fits(ws.skip(2), k); }
}
pub proof fn lemma_refused(c: CommandId, args: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= args.len(),
    ensures
        refused(c, args.take(n)) is Some ==> refused(c, args) == refused(c, args.take(n)),
        n < args.len() ==> args.take(n + 1).drop_last() == args.take(n) && args.take(n + 1).last() == args[n],
    decreases args.len(),
{
    if n < args.len() {
        assert(args.take(n + 1).drop_last() =~= args.take(n));
        lemma_refused(c, args.drop_last(), n);
        assert(args.drop_last().take(n) =~= args.take(n));
    } else {
        assert(args.take(n) =~= args);
    }
}
=== fn cli::parse::ParseError::From<RequestBuilderError>::from
    ensures ret == (ParseError::BuildingRequest { source }),
=== fn cli::parse::parse
    requires arg_fits(utf8(input@)),
    ensures
        ret matches Ok(r) ==> r.wf() && r.kt() is Some && line_request(input@) == Ok::<(CommandId, KeyType, Seq<Seq<u8>>), LineErr>((r.cmd(), r.kt().unwrap(), r.args_v())),
        ret matches Err(e) ==> line_request(input@) == Err::<(CommandId, KeyType, Seq<Seq<u8>>), LineErr>(line_err(e)),
--- entry
    broadcast use axiom_try_from, lemma_strs_tail, lemma_strs_len, lemma_strs_at;
    let ghost gw = words(input@, ' ');
    proof { lemma_words(input@, ' '); }
--- shape for
--- loop-before 0
    let ghost ga = vx_it0.rest();
    let ghost gb = bytes_of(ga);
    let ghost gh = builder.cmd();
    proof {
        lemma_args_fit(gh, builder.kt().unwrap(), gw.skip(1));
        assert(gb.take(0) =~= Seq::<Seq<u8>>::empty());
        lemma_at_start(ga);
    }
--- loop 0
    invariant
        at(ga, vx_it0.rest()), gb == bytes_of(ga), all_fit(gb),
        builder.wf(), builder.cmd() == gh, builder.kt() is Some,
        builder.args_v() == gb.take(done(ga, vx_it0.rest())),
        refused(gh, gb.take(done(ga, vx_it0.rest()))) is None,
        builder.kt() == Some(key_type),
        head_named(gw[0]) matches Some(h) && h.0 == gh && key_type == (match h.1 { Some(k) => k, None => KeyType::Bytes }),
        gw.len() > 1, gw[0].len() > 0, word_args(gh, key_type, gw.skip(1)) == Ok::<Seq<Seq<u8>>, LineErr>(gb),
        gw == words(input@, ' '),
    ensures builder.args_v() == gb, refused(gh, gb) is None,
    decreases vx_it0.rest().len(),
--- loop-entry 0
    let ghost gn = done(ga, vx_it0.rest());
    proof {
        lemma_at(ga, vx_it0.rest());
        lemma_refused(gh, gb, gn);
        if gn < gb.len() {
            lemma_refused(gh, gb, gn + 1);
            assert(gb[gn] == ga[gn]@);
            assert(gb.take(gn) + seq![gb[gn]] =~= gb.take(gn + 1));
            assert(gb[gn].len() == 0 ==> refused(gh, gb.take(gn + 1)) == Some(RequestBuilderError::ArgumentEmpty));
            assert(gb[gn].len() > 0 && overfull(gh, gb.take(gn), 1) ==> refused(gh, gb.take(gn + 1)) == Some(RequestBuilderError::TooManyArguments));
        } else { assert(gb.take(gn) =~= gb); }
    }
=== fn cli::parse::input_args
    requires provided.into_ok(),
    ensures
        ret matches Ok(a) ==> word_args(cmd_id, key_type, strs(provided.items())) == Ok::<Seq<Seq<u8>>, LineErr>(bytes_of(a@)),
        ret matches Err(e) ==> word_args(cmd_id, key_type, strs(provided.items())) == Err::<Seq<Seq<u8>>, LineErr>(line_err(e)),
--- entry
    broadcast use group_line;
    let ghost gw = strs(provided.items());
    let ghost gt = word_args(cmd_id, key_type, gw);
    proof { lemma_utf8s(gw, 0); if gw.len() > 0 { lemma_utf8s(gw, 1); } }
--- shape for map whilelet
--- loop 0
    invariant
        vx_it0.rest().len() <= 2,
        iter.iter_ok(), gw.len() >= 2 - vx_it0.rest().len(),
        strs(iter.rest()) == gw.skip(2 - vx_it0.rest().len()),
        bytes_of(args@) == utf8s(gw.take(2 - vx_it0.rest().len())),
        gt == keys_then(2, gw, key_type),
    ensures
        iter.iter_ok(), gw.len() >= 2, strs(iter.rest()) == gw.skip(2), bytes_of(args@) == utf8s(gw.take(2)),
    decreases vx_it0.rest().len(),
--- loop-entry 0
    proof { lemma_utf8s(gw, 2 - vx_it0.rest().len()); }
--- loop 1
    invariant
        vx_it1.iter_ok(), vx_it1.rest().len() <= gw.len(),
        strs(vx_it1.rest()) == gw.skip(gw.len() - vx_it1.rest().len()),
        bytes_of(vx_out1@) == utf8s(gw.take(gw.len() - vx_it1.rest().len())),
    ensures bytes_of(vx_out1@) == utf8s(gw),
    decreases vx_it1.rest().len(),
--- loop-entry 1
    proof { lemma_utf8s(gw, gw.len() - vx_it1.rest().len()); }
--- loop-before 2
    let ghost mut gr = strs(iter.rest());
--- loop-entry 2
    let ghost ga = args@;
    proof {
        lemma_typed(gr, key_type);
        assert(gr =~= seq![gr[0]] + strs(iter.rest()));
        assert(gr.skip(1) =~= strs(iter.rest()));
        if iter.rest().len() > 0 { assert(gr.skip(2) =~= strs(iter.rest().drop_first())); assert(gr[1] == iter.rest()[0]@); }
    }
--- loop-end 2
    proof {
        if key_type == KeyType::Map {
            assert(strs(iter.rest()) == gr.skip(2));
            assert(bytes_of(args@) =~= bytes_of(ga) + seq![utf8(gr[0]), utf8(gr[1])]);
            match typed_args(gr.skip(2), key_type) {
                Ok(r) => { assert((bytes_of(ga) + seq![utf8(gr[0]), utf8(gr[1])]) + r =~= bytes_of(ga) + (seq![utf8(gr[0]), utf8(gr[1])] + r)); },
                Err(_) => {},
            }
        } else {
            assert(strs(iter.rest()) == gr.skip(1));
            assert(word_arg(gr[0], key_type) is Some);
            let a = word_arg(gr[0], key_type).unwrap();
            assert(args@.len() == ga.len() + 1);
            assert(args@.last()@ =~= a);
            assert(bytes_of(args@) =~= bytes_of(ga) + seq![a]);
            match typed_args(gr.skip(1), key_type) {
                Ok(r) => { assert((bytes_of(ga) + seq![a]) + r =~= bytes_of(ga) + (seq![a] + r)); },
                Err(_) => {},
            }
        }
        gr = strs(iter.rest());
    }
--- loop 2
    invariant
        gr == strs(iter.rest()),
        iter.iter_ok(),
        gt == (match typed_args(strs(iter.rest()), key_type) { Ok(r) => Ok(bytes_of(args@) + r), Err(e) => Err(e) }),
        gt == word_args(cmd_id, key_type, strs(provided.items())),
    ensures gt == Ok::<Seq<Seq<u8>>, LineErr>(bytes_of(args@)),
    decreases iter.rest().len(),
=== fn cli::parse::command
    ensures ret == head_named(name@),
--- entry
    broadcast use group_line, lemma_cmd_named;
    proof {
        lemma_rparts(name@, ':');
    }
=== fn cli::parse::key_type
    ensures ret == kt_named(key_type@),
--- entry
    broadcast use axiom_str_ext;
=== fn cli::parse::key_type_name
    ensures kt_named(ret@) == Some(key_type),
--- entry
    proof { lemma_kt_names(); }
