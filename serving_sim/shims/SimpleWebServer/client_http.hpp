#pragma once
namespace SimpleWeb {
struct HTTP;
template <class T>
class Client {};
}  // namespace SimpleWeb
