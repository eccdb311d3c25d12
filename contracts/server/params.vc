=== params
server::handle_socket_inner socket hop
