=== params
command::command_id::CommandId::FromStr::from_str s
command::command_id::CommandId::TryFrom<u8>::try_from num
command::command_id::CommandId::TryFrom<&str>::try_from s
command::impl::append::Append::bytes hop args resp key
command::impl::append::Append::list hop args resp key
command::impl::append::Append::string hop args resp key
command::impl::append::Append::Dispatch::dispatch hop req resp
command::impl::decrement::Decrement::Dispatch::dispatch hop req resp
command::impl::decrement_by::DecrementBy::decrement_by_min hop key resp
command::impl::decrement_by::DecrementBy::Dispatch::dispatch hop req resp
command::impl::delete::Delete::Dispatch::dispatch hop req resp
command::impl::echo::Echo::Dispatch::dispatch hop req resp
command::impl::exists::Exists::Dispatch::dispatch hop req resp
command::impl::get::Get::Dispatch::dispatch hop req resp
command::impl::increment::Increment::Dispatch::dispatch hop req resp
command::impl::increment_by::IncrementBy::increment_float_by hop key amount resp
command::impl::increment_by::IncrementBy::increment_int_by hop key amount resp
command::impl::increment_by::IncrementBy::Dispatch::dispatch hop req resp
command::impl::is::Is::Dispatch::dispatch hop req resp
command::impl::keys::Keys::map hop key resp
command::impl::keys::Keys::Dispatch::dispatch hop req resp
command::impl::length::Length::bytes hop key resp
command::impl::length::Length::list hop key resp
command::impl::length::Length::map hop key resp
command::impl::length::Length::set hop key resp
command::impl::length::Length::string hop key resp
command::impl::length::Length::Dispatch::dispatch hop req resp
command::impl::rename::Rename::Dispatch::dispatch hop req resp
command::impl::set::Set::boolean hop req resp key
command::impl::set::Set::bytes hop req resp key
command::impl::set::Set::float hop req resp key
command::impl::set::Set::integer hop req resp key
command::impl::set::Set::list hop req resp key
command::impl::set::Set::map hop req resp key
command::impl::set::Set::set hop req resp key
command::impl::set::Set::string hop req resp key
command::impl::set::Set::Dispatch::dispatch hop req resp
command::impl::stats::Stats::Dispatch::dispatch hop req res
command::impl::type::Type::Dispatch::dispatch hop req resp
command::request::builder::RequestBuilder::new command_id
command::request::builder::RequestBuilder::new_with_key_type command_id key_type
command::request::builder::RequestBuilder::bytes bytes
command::request::builder::RequestBuilder::_bytes bytes
command::request::builder::RequestBuilder::value value
command::request::builder::RequestBuilder::_value value
command::request::builder::RequestBuilder::arguments_would_overfill amount
command::request::builder::RequestBuilder::push_argument argument
command::request::builder::RequestBuilder::From<Request>::from request
command::request::context::ParseError::TryFrom<u8>::try_from value
command::request::context::Context::feed buf
command::request::context::Context::stage_init buf
command::request::context::Context::stage_kind buf key_type command_id
command::request::context::Context::stage_argument_parsing buf command_id key_type argument_count
command::request::Argument::convert bytes
command::request::MultiArgument::convert args
command::request::&[u8]::Argument::convert bytes
command::request::bool::Argument::convert bytes
command::request::f64::Argument::convert bytes
command::request::i64::Argument::convert bytes
command::request::DashMap<Vec<u8>,Vec<u8>>::MultiArgument::convert args
command::request::DashSet<Vec<u8>>::MultiArgument::convert args
command::request::&str::Argument::convert bytes
command::request::Request::args range
command::request::Request::arg idx
command::request::Request::typed_arg idx
command::request::Request::From<RequestBuilder>::from builder
command::response::context::Context::feed buf
command::response::context::Context::stage_init buf
command::response::context::Context::stage_determine_type buf
command::response::context::Context::stage_boolean buf
command::response::context::Context::stage_bytes buf len
command::response::context::Context::stage_dispatch_error buf
command::response::context::Context::stage_float buf
command::response::context::Context::stage_integer buf
command::response::context::Context::stage_list buf
command::response::context::Context::stage_map buf
command::response::context::Context::stage_parse_error buf
command::response::context::Context::stage_type_init buf kind read_len
command::response::context::Context::stage_set buf
command::response::context::Context::stage_string buf read_len
command::response::context::remaining_bytes start read to_read
command::response::ResponseType::TryFrom<u8>::try_from value
command::response::Response::copy_to buf
command::response::Response::From<bool>::from value
command::response::Response::From<Vec<u8>>::from value
command::response::Response::From<f64>::from value
command::response::Response::From<i64>::from value
command::response::Response::From<Vec<Vec<u8>>>::from value
command::response::Response::From<DashMap<Vec<u8>,Vec<u8>>>::from value
command::response::Response::From<DashSet<Vec<u8>>>::from value
command::response::Response::From<String>::from value
command::response::Response::From<DispatchError>::from value
command::response::Response::From<RequestParseError>::from value
command::response::write_bool to value
command::response::write_bytes to value
command::response::write_dispatch_error to value
command::response::write_parse_error to value
command::response::write_float to value
command::response::write_int to value
command::response::write_list to value
command::response::write_map to value
command::response::write_set to value
command::response::write_str to value
command::response::write_value to value
command::error::Error::TryFrom<u8>::try_from value
hop::Hop::From<Builder>::from builder
hop::Hop::dispatch req res
pubsub::manager::PubSubManager::get object_key session_id
pubsub::manager::PubSubManager::subscribe object_key session_id
pubsub::manager::PubSubManager::unsubscribe object_key session_id
pubsub::manager::PubSubManager::remove_session session_id
session::manager::SessionManager::new metrics_writer
session::manager::SessionManager::add client_token
session::manager::SessionManager::remove id
session::Session::new client_token id
state::KeyType::TryFrom<u8>::try_from v
state::State::contains_key key
state::State::insert key value
state::State::remove key
state::State::key_ref key
state::State::key_mut key
state::State::key_or_insert_with key f
state::State::key_type key
