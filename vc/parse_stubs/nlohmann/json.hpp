// Declarations only: lets clang parse the sources without the real header (the AST of the real one is huge).
// The contract of these declarations is in vc/stdmodel.py (class JsonVal) and in contracts/load.py.
#pragma once
#include <cstddef>
#include <fstream>
#include <initializer_list>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
namespace nlohmann {
class json {
public:
    template <typename T> static json parse(T&&);
    json& operator[](const char*);
    json& operator[](const std::string&);
    json& operator[](int);
    json& operator[](std::size_t);
    const json& operator[](const char*) const;
    const json& operator[](const std::string&) const;
    const json& operator[](int) const;
    const json& operator[](std::size_t) const;
    json& at(const char*);
    json& at(const std::string&);
    json& at(std::size_t);
    const json& at(const char*) const;
    const json& at(const std::string&) const;
    const json& at(std::size_t) const;
    template <typename T> T get() const;
    template <typename T> T& get_to(T&) const;
    template <typename K> bool contains(K&&) const;
    template <typename T> T value(const char*, const T&) const;
    std::size_t size() const;
    bool empty() const;
    json* begin();
    json* end();
    const json* begin() const;
    const json* end() const;
    template <typename T, std::enable_if_t<!std::is_pointer<T>::value && !std::is_same<T, char>::value &&
              !std::is_same<T, std::initializer_list<char>>::value && !std::is_same<T, json>::value &&
              !std::is_reference<T>::value, int> = 0>
    operator T() const;
};
}
