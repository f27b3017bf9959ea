#include "graph.h"
ARPC_REGISTER(graph::Shape);
ARPC_REGISTER(graph::Circle);
ARPC_REGISTER_WITH_NAME("a group of shapes", graph::Group);
ARPC_REGISTER(graph::Tagged);
ARPC_REGISTER(graph::Alien);
