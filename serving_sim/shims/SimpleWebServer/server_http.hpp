#pragma once
// stand-in for SimpleWebServer: the simulator calls the registered handlers
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <system_error>
#include <thread>
#include "simrt.h"
namespace SimpleWeb {
enum class StatusCode { success_ok = 200, client_error_bad_request = 400, server_error_internal_server_error = 500 };
using error_code = std::error_code;
struct HTTP {};
template <class T>
class Server {
 public:
  struct Response {
    int code = 0;
    int writes = 0;
    std::string body;
    void write(StatusCode c, const std::string& b) {
      code = int(c);
      body = b;
      writes++;
    }
    void write(const std::string& b) { write(StatusCode::success_ok, b); }
  };
  struct Content {
    std::string s;
    std::string string() { return s; }
  };
  struct Request {
    Content content;
    std::string method, path;
  };
  struct Config {
    unsigned short port = 80;
    std::size_t thread_pool_size = 1;
  } config;
  using Handler = std::function<void(std::shared_ptr<Response>, std::shared_ptr<Request>)>;
  std::map<std::string, std::map<std::string, Handler>> resource;
  std::map<std::string, Handler> default_resource;
  std::function<void(std::shared_ptr<Request>, const error_code&)> on_error;
  Server() { last() = this; }
  void start() {
    bool* s = &stopped;
    sim::wait_until([s] { return *s; });
  }
  void stop() { stopped = true; }
  static Server*& last() {
    static Server* s = nullptr;
    return s;
  }
  bool stopped = false;
};
}  // namespace SimpleWeb
