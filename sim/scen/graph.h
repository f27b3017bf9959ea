// Object graphs: shared, weak and unique pointers, cycles, dynamic classes.
#pragma once
#include <atomic>
#include "values.h"

namespace graph {
using sim::OPS;

inline std::atomic<int> g_live{0};
struct Live {
  Live() { ++g_live; }
  Live(const Live&) { ++g_live; }
  ~Live() { --g_live; }
};

struct Node : arpc::serializable<Node> {
  int32_t id = 0;
  std::shared_ptr<Node> a, b;
  std::weak_ptr<Node> w;
  std::shared_ptr<std::string> text;
  ARPC_FIELDS(id, a, w, text, b);
  Live live;
};
struct Shape : arpc::dynamic<Shape> {
  int32_t id = 0;
  ARPC_FIELDS(id);
  Live live;
};
struct Circle : arpc::dynamic<Circle, Shape> {
  float r = 0;
  std::string name;
  ARPC_FIELDS(r, name);
};
struct Group : arpc::dynamic<Group, Shape> {
  std::vector<std::shared_ptr<Shape>> kids;
  std::weak_ptr<Shape> parent;
  std::unique_ptr<Shape> own;
  std::shared_ptr<Circle> round;
  ARPC_FIELDS(kids, parent, own, round);
};
// A polymorphic first base that is not itself dynamic.
struct Tag : arpc::serializable<Tag> {
  virtual ~Tag() = default;
  int32_t tag = 0;
  ARPC_FIELDS(tag);
};
struct Tagged : arpc::serializable<Tagged, Tag, Circle> {
  std::shared_ptr<Tagged> next;
  ARPC_FIELDS(next);
};
struct Alien : arpc::dynamic<Alien> {
  int32_t z = 0;
  ARPC_FIELDS(z);
  Live live;
};
}  // namespace graph
