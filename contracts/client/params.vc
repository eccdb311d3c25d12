=== params
client::backend::memory::Error::From<DispatchError>::from source
client::backend::memory::Error::From<RequestBuilderError>::from source
client::backend::memory::MemoryBackend::send req
client::backend::memory::MemoryBackend::Backend::append key value
client::backend::memory::MemoryBackend::Backend::decrement_by key value
client::backend::memory::MemoryBackend::Backend::decrement key key_type
client::backend::memory::MemoryBackend::Backend::delete key
client::backend::memory::MemoryBackend::Backend::echo content
client::backend::memory::MemoryBackend::Backend::exists keys
client::backend::memory::MemoryBackend::Backend::get key
client::backend::memory::MemoryBackend::Backend::increment_by key value
client::backend::memory::MemoryBackend::Backend::increment key key_type
client::backend::memory::MemoryBackend::Backend::is key_type keys
client::backend::memory::MemoryBackend::Backend::key_type key
client::backend::memory::MemoryBackend::Backend::keys key
client::backend::memory::MemoryBackend::Backend::length key key_type
client::backend::memory::MemoryBackend::Backend::rename from to
client::backend::memory::MemoryBackend::Backend::set key value
client::model::StatsData::new map
client::model::StatsData::int metric
