=== params
client::backend::server::Error::From<RequestBuilderError>::from source
client::backend::server::ServerBackend::connect addrs
client::Client<backend::ServerBackend>::connect addrs
client::backend::server::ServerBackend::send_and_wait request
client::backend::server::ServerBackend::Backend::append key value
client::backend::server::ServerBackend::Backend::decrement_by key value
client::backend::server::ServerBackend::Backend::decrement key key_type
client::backend::server::ServerBackend::Backend::delete key
client::backend::server::ServerBackend::Backend::echo content
client::backend::server::ServerBackend::Backend::exists keys
client::backend::server::ServerBackend::Backend::get key
client::backend::server::ServerBackend::Backend::increment_by key value
client::backend::server::ServerBackend::Backend::increment key key_type
client::backend::server::ServerBackend::Backend::is key_type keys
client::backend::server::ServerBackend::Backend::key_type key
client::backend::server::ServerBackend::Backend::keys key
client::backend::server::ServerBackend::Backend::length key key_type
client::backend::server::ServerBackend::Backend::rename from to
client::backend::server::ServerBackend::Backend::set key value
client::model::StatsData::new map
client::model::StatsData::int metric
