=== params
parse_timespec timespec
