=== params
cli::parse::ParseError::From<RequestBuilderError>::from source
cli::parse::parse input
cli::parse::input_args provided cmd_id key_type
cli::parse::command name
cli::parse::key_type key_type
cli::parse::key_type_name key_type
