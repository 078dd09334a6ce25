// Analysis-only translation unit (never linked into anything that runs).
// It makes clang emit every inline function and template of the public and
// private headers, and instantiates the templates that user code instantiates.
#if __has_include("acceptor.h")
#include "acceptor.h"
#endif
#if __has_include("auth_plugin.h")
#include "auth_plugin.h"
#endif
#if __has_include("builtins.h")
#include "builtins.h"
#endif
#if __has_include("client.h")
#include "client.h"
#endif
#if __has_include("client_conn.h")
#include "client_conn.h"
#endif
#if __has_include("client_opts.h")
#include "client_opts.h"
#endif
#if __has_include("conn_factory.h")
#include "conn_factory.h"
#endif
#if __has_include("connection.h")
#include "connection.h"
#endif
#if __has_include("connector.h")
#include "connector.h"
#endif
#if __has_include("dispatcher_manager.h")
#include "dispatcher_manager.h"
#endif
#if __has_include("except.h")
#include "except.h"
#endif
#if __has_include("executor.h")
#include "executor.h"
#endif
#if __has_include("firewall.h")
#include "firewall.h"
#endif
#if __has_include("http.h")
#include "http.h"
#endif
#if __has_include("http_client.h")
#include "http_client.h"
#endif
#if __has_include("http_errors.h")
#include "http_errors.h"
#endif
#if __has_include("http_server.h")
#include "http_server.h"
#endif
#if __has_include("https_client.h")
#include "https_client.h"
#endif
#if __has_include("https_server.h")
#include "https_server.h"
#endif
#if __has_include("inet_addr.h")
#include "inet_addr.h"
#endif
#if __has_include("libiqxmlrpc.h")
#include "libiqxmlrpc.h"
#endif
#if __has_include("lock.h")
#include "lock.h"
#endif
#if __has_include("method.h")
#include "method.h"
#endif
#if __has_include("net_except.h")
#include "net_except.h"
#endif
#if __has_include("reactor.h")
#include "reactor.h"
#endif
#if __has_include("reactor_impl.h")
#include "reactor_impl.h"
#endif
#if __has_include("reactor_interrupter.h")
#include "reactor_interrupter.h"
#endif
#if __has_include("request.h")
#include "request.h"
#endif
#if __has_include("response.h")
#include "response.h"
#endif
#if __has_include("server.h")
#include "server.h"
#endif
#if __has_include("server_conn.h")
#include "server_conn.h"
#endif
#if __has_include("socket.h")
#include "socket.h"
#endif
#if __has_include("ssl_connection.h")
#include "ssl_connection.h"
#endif
#if __has_include("ssl_lib.h")
#include "ssl_lib.h"
#endif
#if __has_include("util.h")
#include "util.h"
#endif
#if __has_include("value.h")
#include "value.h"
#endif
#if __has_include("value_type.h")
#include "value_type.h"
#endif
#if __has_include("value_type_visitor.h")
#include "value_type_visitor.h"
#endif
#if __has_include("xheaders.h")
#include "xheaders.h"
#endif

template class iqxmlrpc::Client<iqxmlrpc::Http_client_connection>;
template class iqxmlrpc::Client<iqxmlrpc::Https_client_connection>;

namespace vdriver {
// user-side stand-ins: one of each overridable kind
struct User_method : iqxmlrpc::Method {
  void execute(const iqxmlrpc::Param_list&, iqxmlrpc::Value&);
};
void register_user_method(iqxmlrpc::Server& s) {
  iqxmlrpc::register_method<User_method>(s, "m");
}
}
